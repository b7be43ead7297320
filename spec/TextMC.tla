------------------------------- MODULE TextMC -------------------------------
(***************************************************************************)
(* Every text up to MaxLen over a small alphabet, written character by     *)
(* character, read with a number of parameter sets.  Each reachable text   *)
(* is checked against the invariants below and printed with the expected   *)
(* readings for replay in the real code.                                   *)
(***************************************************************************)
EXTENDS TextRead, Json

CONSTANTS Profile, MaxLen
VARIABLE txt

P0 == [mode |-> "t", enc |-> "utf-8", delim |-> <<>>, skip |-> 0, usecols |-> <<>>,
       names |-> <<>>, hasnames |-> FALSE, convs |-> <<>>, strip |-> FALSE]
D(c) == <<<<c>>>>
SEMI == 59
Alphabet == CASE Profile = "layout" -> {49, 97, 59, 32, 10, 9}
              [] Profile = "value"  -> {49, 48, 46, 44, 45, 101, 59, 10}
              [] Profile = "lazy"   -> {49, 50, 46, 44, 59, 32, 10, 97}
Params ==
  CASE Profile = "layout" -> <<
         P0, [P0 EXCEPT !.delim = D(59)], [P0 EXCEPT !.delim = D(9)], [P0 EXCEPT !.delim = D(32)],
         [P0 EXCEPT !.delim = D(59), !.usecols = <<<<1>>>>],
         [P0 EXCEPT !.usecols = <<<<1, 0>>>>],
         [P0 EXCEPT !.delim = D(59), !.skip = 1, !.hasnames = TRUE],
         [P0 EXCEPT !.skip = 1, !.hasnames = TRUE, !.usecols = <<<<1>>>>],
         [P0 EXCEPT !.delim = D(59), !.skip = 1],
         [P0 EXCEPT !.delim = D(9), !.names = << << <<0, <<113>> >>, <<2, <<114>> >> >> >>],
         [P0 EXCEPT !.delim = D(59), !.mode = "b"],
         [P0 EXCEPT !.mode = "d", !.skip = 1, !.hasnames = TRUE] >>
    [] Profile = "value" -> <<
         P0, [P0 EXCEPT !.delim = D(59)], [P0 EXCEPT !.delim = D(59), !.mode = "b"],
         [P0 EXCEPT !.delim = D(59), !.mode = "d", !.strip = TRUE],
         [P0 EXCEPT !.delim = D(44)] >>
    [] OTHER -> << P0, [P0 EXCEPT !.mode = "b"] >>

Lazy == Profile = "lazy"
Read(t, p) == IF Lazy THEN LazyRead(t, p, {}, 25) ELSE ReadText(t, p)
\* with the last line read where a field can not be converted
WithLast(t, p, r) == IF ~Lazy /\ r.st = "ValueError" THEN [last |-> LastRead(t, p)] @@ r ELSE r
Results(t) == [k \in DOMAIN Params |-> WithLast(t, Params[k], Read(t, Params[k]))]

Init == txt = <<>> /\ PrintT("@@" \o ToJson([params |-> Params]))
Next == /\ Len(txt) < MaxLen
        /\ \E c \in Alphabet :
             /\ txt' = Append(txt, c)
             /\ PrintT("@@" \o ToJson([t |-> txt', r |-> Results(txt')]))
Spec == Init /\ [][Next]_txt

---------------------------------------------------------------------------
(* Invariants of the specification.                                        *)
Keys(r) == {r.data[j][1] : j \in DOMAIN r.data}
Records(t, p) == LET ls == Lines(t)
                     skip == p.skip
                 IN Len(SelectSeq(SubSeq(ls, skip + 1, Len(ls)), LAMBDA l : Trim(l, p) # <<>>))
\* every channel holds one value per record
Rectangular ==
  ~Lazy => \A k \in DOMAIN Params :
    LET r == ReadText(txt, Params[k])
    IN r.st = "ok" => \A j \in DOMAIN r.data : Len(r.data[j][2]) = Records(txt, Params[k])
\* selecting a column gives what the full reading has there
Projection ==
  ~Lazy => \A k \in DOMAIN Params : \A c \in 0..1 :
    LET p == [Params[k] EXCEPT !.usecols = <<>>, !.names = <<>>]
        full == ReadText(txt, p)
        one == ReadText(txt, [p EXCEPT !.usecols = <<<<c>>>>])
    IN full.st = "ok" =>
         /\ one.st = "ok"
         /\ c \in Keys(full) => \E j \in DOMAIN full.data : one.data = <<full.data[j]>>
         /\ Keys(one) \subseteq {c}
\* the mode of reading only matters for the type of text
ModeFree ==
  ~Lazy => \A k \in DOMAIN Params :
    LET p == [Params[k] EXCEPT !.mode = "t"]
        q == [Params[k] EXCEPT !.mode = "d"]
    IN ReadText(txt, p) = ReadText(txt, q)
\* a lazy reading has as many lines in every channel, and all lines of it
\* consist of what the text holds
LazyRect ==
  Lazy => LET r == LazyRead(txt, P0, {}, 25)
          IN r.st = "ok" => \A a, b \in DOMAIN r.data : Len(r.data[a][2]) = Len(r.data[b][2])
\* no number no reading
LazyFails ==
  Lazy => LET r == LazyRead(txt, P0, {}, 25)
          IN (\A k \in DOMAIN txt : ~IsDigit(txt[k])) => r.st = "ValueError"
=============================================================================

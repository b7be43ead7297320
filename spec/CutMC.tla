-------------------------------- MODULE CutMC --------------------------------
(***************************************************************************)
(* Writers that are stopped.  Profile "dbf": a table is written byte by    *)
(* byte.  Profiles "mini" and "regular": a compound file (the placements   *)
(* of OleMC, up to the cut in two runs) sector by sector.                  *)
(***************************************************************************)
EXTENDS Cut, Json

CONSTANTS Profile, Bytes
VARIABLES file, n

F(nm, t, s, d) == [name |-> nm, typ |-> t, size |-> s, deci |-> d]
FieldSets == << <<F(<<65>>, 78, 3, 0)>>, <<F(<<66>>, 67, 2, 0), F(<<67>>, 70, 4, 2)>>, <<F(<<65>>, 68, 8, 0), F(<<67>>, 76, 1, 0)>> >>
Rows == << << <<<<32, 32, 55>>>>, <<<<45, 49, 50>>>> >>, << <<<<97, 32>>, <<50, 46, 50, 53>>>>, <<<<32, 32>>, <<48, 46, 48, 48>>>> >>,
           << <<<<50, 48, 49, 57, 49, 50, 51, 49>>, <<84>>>>, <<<<32, 32, 32, 32, 32, 32, 32, 32>>, <<63>>>> >> >>
Tables ==
  UNION {{Encode(FieldSets[t], rs, ex) \o e : rs \in {<<>>} \cup {<< <<f, c>> >> : f \in {32, 42}, c \in SetOf(Rows[t])}
                                              \cup {<< <<f, c>>, <<g, d>> >> : f \in {32, 42}, g \in {32, 42}, c \in SetOf(Rows[t]), d \in SetOf(Rows[t])},
                                       ex \in {<<>>, <<0>>}, e \in {<<>>, <<26>>}} : t \in DOMAIN FieldSets}

\* placements of a container
NextOf(w) == [i \in DOMAIN w |->
  CASE w[i][1] = -5 -> -1 [] w[i][1] = -1 -> -3 [] w[i][1] = -4 -> -4
    [] OTHER -> LET S == {j \in DOMAIN w : w[j] = <<w[i][1], w[i][2] + 1>>}
                IN IF S = {} THEN -2 ELSE Min(S) - 1]
At(w, d, k) == Min({j \in DOMAIN w : w[j] = <<d, k>>}) - 1
RootName == <<82, 111, 111, 116, 32, 69, 110, 116, 114, 121>>
Container(w, m) ==
  [what |-> w, sat |-> NextOf(w), mini |-> m, ssat |-> NextOf(m), msat |-> <<At(w, -1, 1)>>, msatx |-> <<>>,
   dirfirst |-> At(w, -2, 1), ssatfirst |-> IF m = <<>> THEN -2 ELSE At(w, -3, 1), nssat |-> IF m = <<>> THEN 0 ELSE 1,
   dir |-> << <<RootName, 5, -1, -1, 1, IF m = <<>> THEN -2 ELSE At(w, 0, 1), 64 * Len(m)>>,
              <<WORKBOOK, 2, -1, -1, -1, IF m = <<>> THEN At(w, 1, 1) ELSE At(m, 1, 1), Bytes>> >>]
Sectors == Parts(Bytes, 512)
Minis == Parts(Bytes, 64)
Run(a, b) == [k \in 1..(b - a + 1) |-> <<1, a + k - 1>>]
Orders(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN p : p[i] = p[j] => i = j}
Flat(p) == FlattenSeq(p)
MiniOrder == {[k \in 1..Minis |-> <<1, k>>], [k \in 1..Minis |-> <<1, Minis + 1 - k>>]}
Containers ==
  IF Profile = "mini"
  THEN {Container(Flat(p), m) : m \in MiniOrder,
          p \in Orders({<<<<-1, 1>>>>, <<<<-2, 1>>>>, <<<<-3, 1>>>>} \cup {<<<<0, k>>>> : k \in 1..Parts(64 * Minis, 512)})}
  ELSE UNION {{Container(Flat(p), <<>>) : p \in Orders({<<<<-1, 1>>>>, <<<<-2, 1>>>>, Run(1, a), Run(a + 1, Sectors)})} :
              a \in 1..(Sectors - 1)}

Size == IF Profile = "dbf" THEN Len(file) ELSE Len(file.what)
Init == n = 0 /\ IF Profile = "dbf" THEN file \in Tables ELSE file \in Containers
Write == /\ n < Size /\ n' = n + 1 /\ file' = file
         /\ n' = Size => PrintT("@@" \o ToJson(IF Profile = "dbf" THEN [b |-> file] ELSE [L |-> file, n |-> Bytes]))
Spec == Init /\ [][Write]_<<file, n>>

\* Wherever the writer is stopped, the rest is refused or complete.
NeverOther ==
  IF Profile = "dbf" THEN n < 32 \/ DbfCut(file, n) \in {Refused, <<"ok", ReadDbf(file, <<>>)>>}
  ELSE LET d == Find(file, WORKBOOK) IN OleCut(file, d, n) \in {Refused, <<"ok", Ordered(d, PartCount(Entry(file, d)))>>}
Done == n = Size => IF Profile = "dbf" THEN DbfCut(file, n) # Refused ELSE OleCut(file, Find(file, WORKBOOK), n) # Refused /\ Legal(file)
=============================================================================

----------------------------- MODULE TextCases ------------------------------
(***************************************************************************)
(* Judge of recorded readings of text: every case is one content with its  *)
(* parameters, and what the real code gave for it from a number of         *)
(* sources.  A failing observation is printed with the property it breaks. *)
(* A case with tile <<n>> is about the content with its lines of data n    *)
(* times over (see Tile).                                                  *)
(***************************************************************************)
EXTENDS TextRead, Tile, Json

CONSTANT CaseFile
Cases == JsonDeserialize(CaseFile)
VARIABLES i, done

Given(c) == {c.given[k] : k \in DOMAIN c.given}

Tiled(c, data) == IF c.tile = <<>> \/ data = <<>> THEN data ELSE Long(data, c.tile[1] * Len(data[1][2]))
Expect1(c, o) ==
  LET p == [c.prm EXCEPT !.mode = o.mode]
      content == IF o.mode = "t" THEN c.content ELSE c.bytes
  IN IF c.api = "text" THEN ReadText(content, p)
     ELSE LazyRead(content, p, Given(c), c.parse)

Expect(c, o) == LET e == Expect1(c, o) IN IF e.st = "ok" THEN [e EXCEPT !.data = Tiled(c, @)] ELSE e

\* Does the observation agree with what is expected?
Agrees(e, o) ==
  IF e.st = "ok" THEN o.st = "ok" /\ o.data = e.data /\ o.names = e.names
  ELSE o.st = "err" /\ (e.st = "anyerr" \/ \E k \in DOMAIN o.exc : o.exc[k] = e.st)

\* C16: bytes read without encoding compare as text.
AsText(v, enc) == IF v[1] = "b" THEN <<"s", Decode(v[2], enc)>> ELSE v
Plain(o, enc) ==
  [st |-> o.st,
   data |-> [k \in DOMAIN o.data |-> <<o.data[k][1],
               [j \in DOMAIN o.data[k][2] |-> AsText(o.data[k][2][j], enc)]>>],
   names |-> [k \in DOMAIN o.names |-> <<o.names[k][1], AsText(o.names[k][2], enc)>>],
   exc |-> IF o.st = "err" THEN o.exc[1] ELSE ""]

Fn(o) == IF o.src = "path" \/ o.named THEN o.name ELSE <<>>

SourceFails(c) ==
  UNION {LET o == c.obs[k]
             f == c.obs[1]
         IN (IF Plain(o, c.prm.enc) # Plain(f, c.prm.enc) THEN {<<"C16", "result", k>>} ELSE {})
            \cup (IF o.st = "ok" /\ o.fn # Fn(o) THEN {<<"C16", "fn", k>>} ELSE {})
            \cup (IF o.src = "stream" /\ o.closed THEN {<<"C16", "stream closed", k>>} ELSE {})
            \cup (IF o.src = "path" /\ o.leaked > 0 THEN {<<"C16", "file left open", k>>} ELSE {})
         : k \in DOMAIN c.obs}

\* C17: observations come in pairs without and with debug
Same(a, b) == a.st = b.st /\ a.data = b.data /\ a.names = b.names /\ a.exc = b.exc /\ a.msg = b.msg
\* With debug a failing conversion comes with a line for each column's function
\* and the number of the last line read.
ShowsWhere(c, o) ==
  LET p == [c.prm EXCEPT !.mode = o.mode]
      content == IF o.mode = "t" THEN c.content ELSE c.bytes
  IN Expect(c, o).st = "ValueError" =>
       /\ o.nout > Width(content, p)
       /\ \E k \in DOMAIN o.linums : o.linums[k] = LastRead(content, p)
DebugFails(c) ==
  {<<"C17", "debug changes the result", k>> : k \in {k \in DOMAIN c.obs :
       c.obs[k].debug /\ ~Same(c.obs[k-1], c.obs[k])}}
  \cup {<<"C17", "output without debug", k>> : k \in {k \in DOMAIN c.obs :
       ~c.obs[k].debug /\ c.obs[k].nout > 0}}
  \cup {<<"C17", "debug output", k>> : k \in {k \in DOMAIN c.obs :
       c.obs[k].debug /\ ~ShowsWhere(c, c.obs[k])}}

\* C18: the abstract table is what comes out.
TableFails(c) ==
  LET t == c.table[1]
      data == TableData(t.rows, t.comma)
      names == TableNames(t.heads, t.sep, Len(t.rows[1]))
  IN {<<"C18", "table not recovered", k>> : k \in {k \in DOMAIN c.obs :
        LET o == c.obs[k] IN o.st # "ok" \/ o.data # Tiled(c, data) \/ o.names # names}}

ModelFails(c) ==
  {<<c.prop, "differs from the specification", k>> : k \in {k \in DOMAIN c.obs :
       ~Agrees(Expect(c, c.obs[k]), c.obs[k])}}

Fails(c) == CASE c.prop = "C16" -> SourceFails(c)
              [] c.prop = "C17" -> DebugFails(c)
              [] OTHER -> (IF c.table # <<>> THEN TableFails(c) ELSE ModelFails(c))

\* The specification itself: reading a rendered table gives the table.
SpecRecovers(c) ==
  c.table # <<>> =>
    LET t == c.table[1]
        e == LazyRead(c.content, c.prm, Given(c), c.parse)
    IN e.st = "ok" /\ e.data = TableData(t.rows, t.comma)
       /\ e.names = TableNames(t.heads, t.sep, Len(t.rows[1]))

Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET f == Fails(Cases[i])
               e == Expect(Cases[i], Cases[i].obs[1])
           IN f = {} \/ PrintT("@@" \o ToJson([case |-> i, fails |-> f, expect |-> e]))
Spec == Init /\ [][Next]_<<i, done>>
DesignRecovers == done => SpecRecovers(Cases[i])
=============================================================================

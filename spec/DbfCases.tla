------------------------------ MODULE DbfCases ------------------------------
(***************************************************************************)
(* Judge of recorded readings of dbf files.  A case has the bytes of the   *)
(* file and observations, each with the names asked for (option).  A case  *)
(* with tile <<n, m>> is about the file whose records are those of the     *)
(* given file n times and the first m of them once more (see Tile).        *)
(***************************************************************************)
EXTENDS Dbf, Tile, Json

CONSTANT CaseFile
Cases == JsonDeserialize(CaseFile)
VARIABLES i, done

NamesOpt(o) == IF o.names0 = <<>> THEN <<>>
               ELSE << {o.names0[1][k] : k \in DOMAIN o.names0[1]} >>
Agrees(e, o) == o.st = "ok" /\ o.data = e.data /\ o.names = e.names

Live(rs) == Len(SelectSeq(rs, LAMBDA r : r[1] = 32))
Read(c, names) ==
  LET e == ReadDbf(c.bytes, names)
      rs == RecordsOf(c.bytes)
  IN IF c.tile = <<>> THEN e
     ELSE [e EXCEPT !.data = Long(@, c.tile[1] * Live(rs) + Live(SubSeq(rs, 1, c.tile[2])))]

Projected(full, names) ==     \* C21: projection of the reading of all
  LET keep == {k \in DOMAIN full.names : full.names[k][2][2] \in names}
      ch == {full.names[k][1] : k \in keep}
  IN [data |-> SelectSeq(full.data, LAMBDA d : d[1] \in ch),
      names |-> SelectSeq(full.names, LAMBDA n : n[1] \in ch)]

Fn(o) == IF o.src = "path" \/ o.named THEN o.name ELSE <<>>
SourceFails(c, k) ==
  LET o == c.obs[k] IN
  (IF o.st # c.obs[1].st \/ o.data # c.obs[1].data \/ o.names # c.obs[1].names
   THEN {<<"C16", "result", k>>} ELSE {})
  \cup (IF o.st = "ok" /\ o.fn # Fn(o) THEN {<<"C16", "fn", k>>} ELSE {})
  \cup (IF o.src = "stream" /\ o.closed THEN {<<"C16", "stream closed", k>>} ELSE {})
  \cup (IF o.src = "path" /\ o.leaked > 0 THEN {<<"C16", "file left open", k>>} ELSE {})

Fails(c) ==
  UNION {LET o == c.obs[k] IN
    CASE c.prop = "C20" -> IF Agrees(Read(c, <<>>), o) THEN {}
                           ELSE {<<"C20", "differs from the specification", k>>}
      [] c.prop = "C21" ->
           IF NamesOpt(o) = <<>> THEN {}
           ELSE LET full == c.obs[1]
                    r == Projected(full, NamesOpt(o)[1])
                IN IF full.st # "ok" \/ (o.st = "ok" /\ o.data = r.data /\ o.names = r.names)
                      \/ (Agrees(Read(c, NamesOpt(o)), o)
                          /\ ~Agrees(Read(c, <<>>), full))
                   THEN {} ELSE {<<"C21", "not the projection", k>>}
      [] OTHER -> SourceFails(c, k)
    : k \in DOMAIN c.obs}

Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET f == Fails(Cases[i])
           IN f = {} \/ PrintT("@@" \o ToJson([case |-> i, fails |-> f,
                            expect |-> Read(Cases[i], NamesOpt(Cases[i].obs[Len(Cases[i].obs)]))]))
Spec == Init /\ [][Next]_<<i, done>>
\* the two ways of reading are the same thing in the specification
Projects == done => \A k \in DOMAIN Cases[i].obs :
  LET n == NamesOpt(Cases[i].obs[k])
      sel == Read(Cases[i], n)
      r == Projected(Read(Cases[i], <<>>), n[1])
  IN n = <<>> \/ n[1] = {} \/ (sel.data = r.data /\ sel.names = r.names)
=============================================================================

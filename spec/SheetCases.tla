----------------------------- MODULE SheetCases -----------------------------
(***************************************************************************)
(* Judge of recorded calls on spread sheets.  A case has files (the        *)
(* content of xlsx packages or xls books), and calls [file, a, obs].       *)
(***************************************************************************)
EXTENDS Extras, Xlsx, Ole, Json

CONSTANT CaseFile
Cases == JsonDeserialize(CaseFile)
VARIABLES i, done

Book(f) == IF f.form = "xlsx" THEN XlsxBook(f.x) ELSE BiffBook(f.x)

\* An observed column is <<number, array kind, values>>.
ColumnOK(e, o) == /\ o[1] = e[1] /\ o[3] = e[3]
                  /\ e[3] = <<>> \/ e[2] = "mixed"
                     \/ (e[2] = "num" /\ o[2] \in {"f", "i", "u"}) \/ (e[2] = "text" /\ o[2] = "U")
CallOK(e, o) ==
  CASE e.st = "unspecified" -> TRUE
    [] e.st = "ok" -> /\ o.st = "ok" /\ o.names = e.names /\ Len(o.data) = Len(e.data)
                      /\ \A k \in DOMAIN e.data : ColumnOK(e.data[k], o.data[k])
    [] e.st = "ValueError" -> o.st = "err" /\ o.exc # <<>> /\ "ValueError" \in {o.exc[k] : k \in DOMAIN o.exc}
    [] OTHER -> o.st = "err"

\* Notations are judged by themselves.
NoteOK(n) ==
  CASE n.k = "letters" -> IF ColNum(n.s) = <<>> THEN n.obs[1] = "err"
                          ELSE n.obs = <<"ok", ColNum(n.s)[1]>>
    [] n.k = "cell" -> LET e == CellRef(n.s)
                       IN IF e = <<>> THEN n.obs[1] = "err"
                          ELSE n.obs = <<"ok", IF e[1][1] < 0 THEN n.row ELSE e[1][1], e[1][2]>>
    [] OTHER -> LET e == ColumnList(n.s)
                IN IF e = <<>> THEN n.obs[1] = "err"
                   ELSE n.obs = <<"ok">> \o SetToSortSeq(e[1], <)

Fails(c) ==
  IF c.k = "notes" THEN {<<j, n>> : j \in {j \in DOMAIN c.notes : ~NoteOK(c.notes[j])}, n \in {"note"}}
  ELSE LET books == [f \in DOMAIN c.files |-> Book(c.files[f])]
       IN {<<j, SheetPack(books[c.calls[j].file], c.calls[j].a)>> : j \in
             {j \in DOMAIN c.calls : ~CallOK(SheetPack(books[c.calls[j].file], c.calls[j].a), c.calls[j].obs)}}
          \cup (IF c.same /\ \E f \in DOMAIN books : \E s \in DOMAIN books[1].sheets :
                        books[f].mode # books[1].mode \/ ~SameCells(books[f].sheets[s], books[1].sheets[s])
                THEN {<<0, "files differ in the specification">>} ELSE {})
          \cup (IF \E f \in DOMAIN c.files : c.files[f].ole # <<>> /\ ~(LET o == c.files[f].ole
                                                                     IN Legal(o[1]) /\ Holds(o[1], o[2]))
                THEN {<<0, "no legal container">>} ELSE {})
          \cup (IF \E f \in DOMAIN c.files : c.files[f].form = "xls" /\ ~ExtrasOK(c.files[f].x)
                THEN {<<0, "no legal book">>} ELSE {})

Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET f == Fails(Cases[i])
           IN f = {} \/ PrintT("@@" \o ToJson([case |-> i, fails |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================

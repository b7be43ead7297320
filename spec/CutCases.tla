------------------------------ MODULE CutCases ------------------------------
(* Judge of recorded readings of files cut short.  A case has obs, the     *)
(* different observations, full (the one of the complete file), cuts       *)
(* <<bytes left, observation>> and, of a dbf file, its bytes.              *)
EXTENDS Cut, Json

CONSTANT CaseFile
Cases == JsonDeserialize(CaseFile)
VARIABLES i, done

Fails(c) ==
  LET full == c.obs[c.full]
  IN IF full.st # "ok" THEN {<<-1, "the complete file is refused">>}
     ELSE {<<c.cuts[k][1], "cut">> : k \in {k \in DOMAIN c.cuts :
             ~CutOK(full, c.obs[c.cuts[k][2]], c.form = "dbf" /\ c.cuts[k][1] >= DbfNeeds(c.b))}}
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET f == Fails(Cases[i])
           IN f = {} \/ PrintT("@@" \o ToJson([case |-> i, fails |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================

------------------------------ MODULE KindCases ------------------------------
(* Judge of recorded openings: a case has a file f and what was seen, obs. *)
EXTENDS Kind, TLC, Json, SequencesExt

CONSTANT CaseFile
Cases == JsonDeserialize(CaseFile)
VARIABLES i, done

Fails(c) == {k \in DOMAIN c.obs : ~Agrees(c.f, c.obs[k])}
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET x == Fails(Cases[i])
           IN x = {} \/ PrintT("@@" \o ToJson([case |-> i, fails |-> SetToSeq(x), want |-> Outcome(Cases[i].f)]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================

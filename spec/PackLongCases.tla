---------------------------- MODULE PackLongCases ---------------------------
(***************************************************************************)
(* Judge of recorded histories of packs of many rows.  A piece is recorded *)
(* as <<first block, times, regular>>.  The first failing step of a case   *)
(* is printed with the properties it belongs to.                           *)
(***************************************************************************)
EXTENDS PackLong, Json
CONSTANT CaseFile
Cases == JsonDeserialize(CaseFile)
VARIABLES i, done

Said(ps) == [j \in DOMAIN ps |-> <<ps[j][1], ps[j][2], TRUE>>]
SameRes(e, o) ==
  CASE e.t = "ok" -> o.t = "ok"
    [] e.t = "exc" -> o.t = "exc" /\ \E k \in DOMAIN o.mro : o.mro[k] = e.e
    [] e.t = "arr" -> o.t = "arr" /\ o.k = e.k /\ o.v = Said(e.v)
    [] OTHER -> o.t = e.t /\ o.v = Said(e.v)
Start(c) == [data |-> c.data, mask |-> OnAll(c.data[1][3]), mindur |-> None]
After(c, n) == FoldLeft(LAMBDA p, s : LApply(p, s.ev).p, Start(c), SubSeq(c.steps, 1, n))
Owner(ev) ==
  CASE ev.op \in {"setmask", "andmask", "setmindur"} -> {"C02"}
    [] ev.op = "reset" -> {"C03"} [] ev.op = "duration" -> {"C04"} [] ev.op = "startstop" -> {"C05"}
    [] ev.op = "append" -> {"C09"} [] ev.op = "records" -> {"C08"}
    [] ev.op = "call" -> IF ev.part = None THEN {"C06"} ELSE {"C06", "C01"}
Also(ev, p) == (IF ev.op = "append" THEN {"C03"} ELSE {}) \cup (IF p.mindur # None THEN {"C02"} ELSE {})
StepFails(c, n) ==
  LET pre == After(c, n - 1)
      s == c.steps[n]
      x == LApply(pre, s.ev)
  IN (IF SameRes(x.r, s.res) THEN {} ELSE {<<l, "result">> : l \in Owner(s.ev)})
     \cup (IF s.mask = Said(x.p.mask) THEN {} ELSE {<<l, "mask">> : l \in Owner(s.ev) \cup Also(s.ev, pre)})
     \cup (IF s.mask # Said(x.p.mask) \/ (s.count = LCount(x.p.mask) /\ s.seq) THEN {} ELSE {<<"C01", "parts">>})
Bad(c) == {n \in DOMAIN c.steps : StepFails(c, n) # {}}
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET b == Bad(Cases[i])
           IN b = {} \/ LET n == Min(b) IN
                PrintT("@@" \o ToJson([case |-> i, step |-> n, fails |-> StepFails(Cases[i], n)]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================

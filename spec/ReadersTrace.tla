---------------------------- MODULE ReadersTrace ----------------------------
(***************************************************************************)
(* Judge of recorded histories.  The file has meaning (content -> call ->  *)
(* observation of a fresh process, negative if it failed) and hists.  A    *)
(* history has slots (contents at the start) and steps; a step has ev and what is seen after it: disk (the    *)
(* content found per slot), files open, the observation of every pack      *)
(* made so far, for "read" and "end" res and args (the arguments are as    *)
(* they were).                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT CaseFile
File == JsonDeserialize(CaseFile)
Hists == File.hists
VARIABLES h, i, disk, packs, open, busy

H == Hists[h]
MeaningOf(c, k) == File.meaning[c][k]
Slots == 1..4   Contents == DOMAIN File.meaning   Calls == DOMAIN File.meaning[1]   Threads == 1..4
R == INSTANCE Readers

Prev == IF i = 1 THEN <<>> ELSE H.steps[i - 1].packs
\* A reading in one thread; what it gives is seen when it ends.
Step(st) ==
  CASE st.ev[1] = "write" -> R!Write(st.ev[2], st.ev[3])
    [] st.ev[1] = "begin" -> R!Begin(st.ev[2], st.ev[3], st.ev[4])
    [] st.ev[1] = "read" -> R!Read(st.ev[2], st.ev[3])
    [] st.ev[1] = "alter" -> R!Alter(st.ev[2])
    [] OTHER -> R!End(st.ev[2])
Result(st) == IF st.ev[1] = "read" THEN MeaningOf(disk[st.ev[2]], st.ev[3])
              ELSE MeaningOf(disk[busy[st.ev[2]][1]], busy[st.ev[2]][2])
Good(st) ==
  /\ st.disk = disk'
  /\ R!Idle = busy' => st.open = open'
  /\ CASE st.ev[1] \in {"read", "end"} ->
            st.args /\ st.res = Result(st) /\ st.packs = IF st.res > 0 THEN Append(Prev, st.res) ELSE Prev
       [] st.ev[1] = "alter" -> Len(st.packs) = Len(Prev) /\ \A j \in DOMAIN Prev : j = st.ev[2] \/ st.packs[j] = Prev[j]
       [] OTHER -> st.packs = Prev
Init == /\ h \in 1..Len(Hists) /\ i = 1 /\ disk = Hists[h].slots /\ packs = <<>> /\ open = 0
        /\ busy = [t \in Threads |-> <<>>]
Next == /\ i <= Len(H.steps) /\ i' = i + 1 /\ h' = h
        /\ Step(H.steps[i])
        /\ Good(H.steps[i]) \/ PrintT("@@" \o ToJson([h |-> h, i |-> i]))
Spec == Init /\ [][Next]_<<h, i, disk, packs, open, busy>>
=============================================================================

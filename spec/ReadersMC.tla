----------------------------- MODULE ReadersMC ------------------------------
(* All histories of Depth steps over a few slots, contents and calls; the  *)
(* complete ones are printed.                                              *)
EXTENDS Readers, TLC, Json

CONSTANTS Depth
VARIABLE hist

M(c, k) == IF c = k THEN -1 ELSE 10 * c + k       \* some calls fail
Init == /\ disk = [s \in Slots |-> 1] /\ packs = <<>> /\ open = 0 /\ busy = Idle /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Steps == \/ \E s \in Slots, c \in Contents : c # disk[s] /\ Write(s, c) /\ Log(<<"write", s, c>>)
         \/ \E s \in Slots, k \in Calls : Read(s, k) /\ Log(<<"read", s, k>>)
         \/ \E t \in Threads, s \in Slots, k \in Calls : Begin(t, s, k) /\ Log(<<"begin", t, s, k>>)
         \/ \E t \in Threads : End(t) /\ Log(<<"end", t>>)
         \/ \E i \in DOMAIN packs : packs[i][2] = 0 /\ Alter(i) /\ Log(<<"alter", i>>)
Next == /\ Len(hist) < Depth /\ Steps
        /\ (Len(hist') = Depth /\ packs' # <<>> /\ hist'[Depth][1] # "write" /\ busy' = Idle) => PrintT("@@" \o ToJson(hist'))
Spec == Init /\ [][Next]_<<vars, hist>>
KeptP == [][Kept]_vars
ReadOnlyP == [][ReadOnly]_vars
=============================================================================

------------------------------ MODULE Readers -------------------------------
(***************************************************************************)
(* Readers over time.  Files hold contents, reading a file makes a pack or *)
(* fails.  What a reading gives is a function of what the file holds and   *)
(* of the call, whatever was read, failed or altered before and whatever   *)
(* other readers do meanwhile; it changes no file and no other pack, and   *)
(* it leaves no file open.                                                 *)
(*                                                                         *)
(* Meaning[c][k] is what call k gives for content c: a number (of a pack   *)
(* described elsewhere, by TextRead, Dbf, Sheet, ...), negative (the kind  *)
(* of error) when it fails.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots, Contents, Calls, Threads, MeaningOf(_, _)

VARIABLES disk,      \* slot -> content
          packs,     \* the packs made, each <<meaning, times altered>>
          open,      \* files held open by the library
          busy       \* thread -> <<slot, call>> being read, <<>> when idle

vars == <<disk, packs, open, busy>>
Idle == [t \in Threads |-> <<>>]
InUse(s) == \E t \in Threads : busy[t] # <<>> /\ busy[t][1] = s

Write(s, c) == /\ ~InUse(s) /\ disk' = [disk EXCEPT ![s] = c]
               /\ UNCHANGED <<packs, open, busy>>
Begin(t, s, k) == /\ busy[t] = <<>> /\ busy' = [busy EXCEPT ![t] = <<s, k>>]
                  /\ open' = open + 1
                  /\ UNCHANGED <<disk, packs>>
End(t) == /\ busy[t] # <<>> /\ busy' = [busy EXCEPT ![t] = <<>>]
          /\ open' = open - 1
          /\ LET m == MeaningOf(disk[busy[t][1]], busy[t][2])
             IN packs' = IF m <= 0 THEN packs ELSE Append(packs, <<m, 0>>)
          /\ UNCHANGED disk
\* a reading with nobody in between
Read(s, k) == /\ LET m == MeaningOf(disk[s], k)
                 IN packs' = IF m <= 0 THEN packs ELSE Append(packs, <<m, 0>>)
              /\ UNCHANGED <<disk, open, busy>>
Alter(i) == /\ packs' = [packs EXCEPT ![i][2] = @ + 1]
            /\ UNCHANGED <<disk, open, busy>>

---------------------------------------------------------------------------
\* Nothing is held open when nobody reads.
NoneOpen == busy = Idle => open = 0
\* Packs keep what they have, one alteration alters one pack.
Kept == /\ Len(packs') >= Len(packs)
        /\ \A i \in DOMAIN packs : packs'[i][1] = packs[i][1]
        /\ Cardinality({i \in DOMAIN packs : packs'[i] # packs[i]}) <= 1
\* Readers do not write.
ReadOnly == busy' # busy => disk' = disk
=============================================================================

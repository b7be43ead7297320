-------------------------------- MODULE Book --------------------------------
(***************************************************************************)
(* An open workbook (xlrd.open_workbook): its sheets are loaded at once or *)
(* on demand, asked for by number, by name or all together, unloaded, and  *)
(* the resources are released at some time.                                *)
(*                                                                         *)
(* A sheet handed out is an object; objects are numbered in the order they *)
(* are seen.  cur[s] is 0 when sheet s is not loaded, -1 when it is loaded *)
(* and has not been seen, else the number of its object.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxSheets
VARIABLES cur, objs, released

bvars == <<cur, objs, released>>
\* demand: sheets are loaded when asked for
Opened(n, demand) == /\ cur = [s \in 1..n |-> IF demand THEN 0 ELSE -1]
                     /\ objs = <<>> /\ released = ~demand
Ns == Len(cur)

\* After handing out the sheets ss in this order
RECURSIVE Hand(_, _, _)
Hand(c, o, ss) ==
  IF ss = <<>> THEN <<c, o>>
  ELSE LET s == Head(ss)
       IN IF c[s] > 0 THEN Hand(c, o, Tail(ss))
          ELSE Hand([c EXCEPT ![s] = Len(o) + 1], Append(o, s), Tail(ss))
CanHand(ss) == \A i \in DOMAIN ss : cur[ss[i]] # 0 \/ ~released

\* <<>> is the result when it can not be done.
Give(ss) ==
  IF CanHand(ss) THEN LET h == Hand(cur, objs, ss) IN cur' = h[1] /\ objs' = h[2]
  ELSE UNCHANGED <<cur, objs>>
Given(ss) == IF CanHand(ss) THEN LET h == Hand(cur, objs, ss) IN << [i \in DOMAIN ss |-> h[1][ss[i]]] >>
             ELSE <<>>
All == [s \in 1..Ns |-> s]

Ask(s) == Give(<<s>>) /\ UNCHANGED released
AskAll == Give(All) /\ UNCHANGED released
Unload(s) == cur' = [cur EXCEPT ![s] = 0] /\ UNCHANGED <<objs, released>>
Release == released' = TRUE /\ UNCHANGED <<cur, objs>>

---------------------------------------------------------------------------
\* What was handed out stays what it was; one object per loaded sheet.
ObjsKept == Len(objs') >= Len(objs) /\ SubSeq(objs', 1, Len(objs)) = objs
OneEach == \A s, t \in 1..Ns : cur[s] > 0 /\ cur[s] = cur[t] => s = t
CurRight == \A s \in 1..Ns : cur[s] > 0 => cur[s] \in DOMAIN objs /\ objs[cur[s]] = s
\* Nothing is loaded after release, release is for ever.
Frozen == released => released' /\ \A s \in 1..Ns : cur[s] = 0 => cur'[s] = 0
\* A loaded sheet stays the same object until it is unloaded.
Stay == \A s \in 1..Ns : cur[s] > 0 => cur'[s] \in {0, cur[s]}
=============================================================================

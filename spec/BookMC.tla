------------------------------- MODULE BookMC -------------------------------
(* All histories of an open workbook of N sheets, printed.                 *)
EXTENDS Book, TLC, Json

CONSTANTS N, Depth
VARIABLES hist, demand

Init == demand \in BOOLEAN /\ Opened(N, demand) /\ hist = <<>>
Log(e) == hist' = Append(hist, e) /\ demand' = demand
Steps == \/ \E s \in 1..N : Ask(s) /\ \E k \in {"index", "name"} : Log(<<k, s>>)
         \/ AskAll /\ \E k \in {"sheets", "iter"} : Log(<<k>>)
         \/ \E s \in 1..N : cur[s] # 0 /\ Unload(s) /\ Log(<<"unload", s>>)
         \/ ~released /\ Release /\ Log(<<"release">>)
Next == /\ Len(hist) < Depth /\ Steps
        /\ (Len(hist') = Depth /\ objs' # <<>>) => PrintT("@@" \o ToJson([demand |-> demand, evs |-> hist']))
Spec == Init /\ [][Next]_<<bvars, hist, demand>>
ObjsKeptP == [][ObjsKept]_bvars
FrozenP == [][Frozen]_bvars
StayP == [][Stay]_bvars
=============================================================================

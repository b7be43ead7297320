------------------------------- MODULE OleMC --------------------------------
(***************************************************************************)
(* A writer of compound files that places blocks of sectors in any order.  *)
(* Profile "mini": the workbook (Bytes long) is in the mini stream, its    *)
(* mini sectors in any order too; "regular": a workbook of Bytes >= 4096   *)
(* cut into up to three runs of sectors.                                   *)
(***************************************************************************)
EXTENDS Ole, Json

CONSTANTS Profile, Bytes
VARIABLES what, mini, left, leftmini, runs

Sectors == Parts(Bytes, 512)
Minis == Parts(Bytes, 64)
Run(a, b) == [k \in 1..(b - a + 1) |-> <<1, a + k - 1>>]
Cuts == {<<Run(1, Sectors)>>} \cup {<<Run(1, a), Run(a + 1, Sectors)>> : a \in 1..(Sectors - 1)}
        \cup {<<Run(1, p[1]), Run(p[1] + 1, p[2]), Run(p[2] + 1, Sectors)>> :
              p \in {q \in (1..(Sectors - 1)) \X (1..(Sectors - 1)) : q[1] < q[2]}}
Range2(s) == {s[i] : i \in DOMAIN s}

\* allocation table of the sectors w
NextOf(w) == [i \in DOMAIN w |->
  CASE w[i][1] = -5 -> -1 [] w[i][1] = -1 -> -3 [] w[i][1] = -4 -> -4
    [] OTHER -> LET S == {j \in DOMAIN w : w[j] = <<w[i][1], w[i][2] + 1>>}
                IN IF S = {} THEN -2 ELSE Min(S) - 1]
At(w, d, k) == Min({j \in DOMAIN w : w[j] = <<d, k>>}) - 1
RootName == <<82, 111, 111, 116, 32, 69, 110, 116, 114, 121>>
Container(w, m) ==
  [what |-> w, sat |-> NextOf(w), mini |-> m, ssat |-> NextOf(m), msat |-> <<At(w, -1, 1)>>, msatx |-> <<>>,
   dirfirst |-> At(w, -2, 1), ssatfirst |-> IF m = <<>> THEN -2 ELSE At(w, -3, 1), nssat |-> IF m = <<>> THEN 0 ELSE 1,
   dir |-> << <<RootName, 5, -1, -1, 1, IF m = <<>> THEN -2 ELSE At(w, 0, 1), 64 * Len(m)>>,
              <<WORKBOOK, 2, -1, -1, -1, IF m = <<>> THEN At(w, 1, 1) ELSE At(m, 1, 1), Bytes>> >>]

Init == /\ what = <<>> /\ mini = <<>>
        /\ IF Profile = "mini"
           THEN /\ runs = <<>>
                /\ leftmini = {<<1, k>> : k \in 1..Minis} \cup {<<-5, 0>>}
                /\ left = {<<<<-1, 1>>>>, <<<<-2, 1>>>>, <<<<-3, 1>>>>} \cup {<<<<0, k>>>> : k \in 1..Parts(64 * (Minis + 1), 512)}
           ELSE /\ runs \in Cuts /\ leftmini = {}
                /\ left = {<<<<-1, 1>>>>, <<<<-2, 1>>>>} \cup Range2(runs)
Next == /\ \/ /\ leftmini # {}
              /\ \E m \in leftmini : mini' = Append(mini, m) /\ leftmini' = leftmini \ {m}
              /\ UNCHANGED <<what, left, runs>>
           \/ /\ leftmini = {} /\ left # {}
              /\ \E b \in left : what' = what \o b /\ left' = left \ {b}
              /\ UNCHANGED <<mini, leftmini, runs>>
        /\ (left' = {} /\ leftmini' = {}) => PrintT("@@" \o ToJson([L |-> Container(what', mini'), n |-> Bytes]))
Spec == Init /\ [][Next]_<<what, mini, left, leftmini, runs>>

\* Every placement is a legal container that holds the workbook.
Complete == left = {} /\ leftmini = {} => Legal(Container(what, mini)) /\ Holds(Container(what, mini), Bytes)
=============================================================================

----------------------------- MODULE PackLongMC -----------------------------
(***************************************************************************)
(* The operations on pieces are those of Pack on what the pieces stand     *)
(* for, for all pieces within the bounds.                                  *)
(***************************************************************************)
EXTENDS PackLong
CONSTANTS MaxBlock, MaxTimes
VARIABLES ps, qs, done

Bits(n) == UNION {[1..k -> BOOLEAN] : k \in 1..n}
Blocks == {b \in Bits(MaxBlock) : ~b[Len(b)]}
Tails == Bits(2)
Col(p) == [i \in DOMAIN p |-> i]
Init == /\ ps \in {<<<<h, 1>>, <<b, n>>>> : h \in {<<FALSE>>, <<TRUE, FALSE>>}, b \in Blocks, n \in 1..MaxTimes}
        /\ qs \in {[j \in DOMAIN ps |-> <<x[j], ps[j][2]>>] : x \in [1..2 -> Bits(MaxBlock)]}
        /\ \A j \in DOMAIN ps : Len(ps[j][1]) = Len(qs[j][1])
        /\ done = FALSE
Next == done' = TRUE /\ UNCHANGED <<ps, qs>>
Spec == Init /\ [][Next]_<<ps, qs, done>>

Cols == [j \in DOMAIN ps |-> <<[i \in DOMAIN ps[j][1] |-> 10 * j + i], ps[j][2]>>]
FlatCol == [k |-> "i", v |-> Flat(Cols)]
Stops == [j \in DOMAIN ps |-> <<[i \in DOMAIN qs[j][1] |-> qs[j][1][i] \/ i = Len(qs[j][1])], ps[j][2]>>]
Duration == \A q \in 0..(MaxBlock + 1) : \A min \in BOOLEAN :
  Flat(LDur(ps, q, min)) = IF min THEN DurMin(Flat(ps), q) ELSE DurMax(Flat(ps), q)
And == Flat(LAnd(ps, qs)) = AndMask(Flat(ps), Flat(qs))
Trigger == /\ Flat(LStartStop(qs, Stops)) = StartStop(Flat(qs), Flat(Stops))
           /\ Separate(LStartStop(qs, Stops))
Parts == /\ LCount(ps) = Len(Runs(Flat(ps)))
         /\ \A i \in 0..(LCount(ps) - 1) : Flat(LPart(Cols, ps, i)) = PartView(FlatCol, Flat(ps), i).v
Views == /\ Flat(LFilter(Cols, ps)) = FilterView(FlatCol, Flat(ps)).v
         /\ Flat(LNan("i", Cols, ps)) = NanView(FlatCol, Flat(ps)).v
Full == /\ Flat(OnAll(ps)) = AllTrue(Size(ps))
        /\ LCount(OnAll(ps)) = Len(Runs(Flat(OnAll(ps))))
        /\ \A q \in {1, Size(ps), Size(ps) + 1} : \A min \in BOOLEAN :
             Flat(LDur(OnAll(ps), q, min)) = IF min THEN DurMin(Flat(OnAll(ps)), q) ELSE DurMax(Flat(OnAll(ps)), q)
        /\ Flat(LPart(Cols, OnAll(ps), 0)) = Flat(Cols)
=============================================================================

------------------------------ MODULE PackLong ------------------------------
(***************************************************************************)
(* Packs of many rows.  A long sequence is written as pieces               *)
(* <<block, times>>: the block again and again.  Where the pieces of a     *)
(* mask end with False no part reaches from one block into the next, and   *)
(* each operation of Pack on the long mask is the operation on the blocks; *)
(* PackLongMC checks this against Pack itself.  The other kind of long     *)
(* mask is the one all True.                                               *)
(***************************************************************************)
EXTENDS Pack

Flat(ps) == FoldLeft(LAMBDA acc, p : acc \o [i \in 1..(p[2] * Len(p[1])) |-> p[1][((i - 1) % Len(p[1])) + 1]], <<>>, ps)
Size(ps) == FoldLeft(LAMBDA acc, p : acc + p[2] * Len(p[1]), 0, ps)
MapB(ps, Op(_)) == [j \in DOMAIN ps |-> <<Op(ps[j][1]), ps[j][2]>>]
Map2(ps, qs, Op(_,_)) == [j \in DOMAIN ps |-> <<Op(ps[j][1], qs[j][1]), ps[j][2]>>]
EndsFalse(b) == b = <<>> \/ ~b[Len(b)]
Separate(ps) == \A j \in DOMAIN ps : EndsFalse(ps[j][1])
AllOn(ps) == \A j \in DOMAIN ps : \A i \in DOMAIN ps[j][1] : ps[j][1][i]
OnAll(ps) == MapB(ps, LAMBDA b : AllTrue(Len(b)))
OffAll(ps) == MapB(ps, LAMBDA b : [i \in 1..Len(b) |-> FALSE])

LDur(ps, q, min) ==
  IF Separate(ps) THEN MapB(ps, LAMBDA b : IF min THEN DurMin(b, q) ELSE DurMax(b, q))
  ELSE IF (IF min THEN Size(ps) >= q ELSE Size(ps) <= q) THEN ps ELSE OffAll(ps)
LMindur(ps, md) == IF md = None THEN ps ELSE LDur(ps, md[1], TRUE)
LAnd(ps, qs) == Map2(ps, qs, AndMask)
\* the stop condition holds at the end of each block
LStartStop(a, b) == Map2(a, b, StartStop)
LCount(ps) == IF Separate(ps) THEN FoldLeft(LAMBDA acc, p : acc + p[2] * Len(Runs(p[1])), 0, ps)
              ELSE IF Size(ps) > 0 THEN 1 ELSE 0
\* piece number and part within its block of part number i
RECURSIVE Where(_, _, _)
Where(ps, i, j) ==
  LET n == Len(Runs(ps[j][1])) IN
  IF i < n * ps[j][2] THEN <<j, i % n>> ELSE Where(ps, i - n * ps[j][2], j + 1)
LPart(cs, ps, i) ==
  IF Separate(ps)
  THEN LET w == Where(ps, i, 1)
       IN << <<PartView([k |-> "", v |-> cs[w[1]][1]], ps[w[1]][1], w[2]).v, 1>> >>
  ELSE cs
LFilter(cs, ps) == Map2(cs, ps, LAMBDA v, b : FilterView([k |-> "", v |-> v], b).v)
LNan(k, cs, ps) == Map2(cs, ps, LAMBDA v, b : NanView([k |-> k, v |-> v], b).v)

\* A long pack: data <<key, kind, pieces>> in order of the keys, all with the
\* pieces of the same sizes; mask, mindur.
LArr(k, ps) == [t |-> "arr", k |-> k, v |-> ps]
ColOf(p, key) == p.data[CHOOSE i \in DOMAIN p.data : p.data[i][1] = key]
LView(p, key, part, nof) ==
  LET c == ColOf(p, key) IN
  IF part # None
  THEN IF part[1] < LCount(p.mask) THEN LArr(c[2], LPart(c[3], p.mask, part[1]))
       ELSE [t |-> "exc", e |-> "IndexError"]
  ELSE IF nof = "nan" THEN LArr(NanKind(c[2]), LNan(c[2], c[3], p.mask))
  ELSE IF nof = "filter" THEN LArr(c[2], LFilter(c[3], p.mask))
  ELSE LArr(c[2], c[3])
\* the values of a record, side by side
LRecords(p, part, nof) ==
  LET vs == [i \in DOMAIN p.data |-> LView(p, p.data[i][1], part, nof)]
  IN IF vs[1].t = "exc" THEN vs[1]
     ELSE [t |-> "recs", v |->
            [j \in DOMAIN vs[1].v |->
               <<[r \in DOMAIN vs[1].v[j][1] |-> [i \in DOMAIN vs |-> vs[i].v[j][1][r]]], vs[1].v[j][2]>>]]

LOk == [t |-> "ok"]
LBools(ps) == [t |-> "bools", v |-> ps]
LApply(p, ev) ==
  CASE ev.op = "setmask" -> [p |-> [p EXCEPT !.mask = LMindur(ev.mask, p.mindur)], r |-> LOk]
    [] ev.op = "andmask" -> [p |-> [p EXCEPT !.mask = LMindur(LAnd(@, ev.mask), p.mindur)], r |-> LOk]
    [] ev.op = "reset" -> [p |-> [p EXCEPT !.mask = LMindur(OnAll(@), p.mindur)], r |-> LOk]
    [] ev.op = "setmindur" -> [p |-> [p EXCEPT !.mindur = ev.md, !.mask = LMindur(@, ev.md)], r |-> LOk]
    [] ev.op = "duration" ->
         LET m == LDur(p.mask, ev.q, ev.min) IN [p |-> [p EXCEPT !.mask = m], r |-> LBools(m)]
    [] ev.op = "startstop" ->
         LET r == LStartStop(ev.a, ev.b)
         IN [p |-> IF ev.apply THEN [p EXCEPT !.mask = LMindur(LAnd(@, r), p.mindur)] ELSE p, r |-> LBools(r)]
    [] ev.op = "append" ->      \* another pack with the keys and kinds of this
         LET d == [i \in DOMAIN p.data |-> <<p.data[i][1], p.data[i][2], p.data[i][3] \o ev.cols[i]>>]
         IN [p |-> [p EXCEPT !.data = d, !.mask = LMindur(OnAll(d[1][3]), p.mindur)], r |-> LOk]
    [] ev.op = "call" -> [p |-> p, r |-> LView(p, ev.key, ev.part, ev.nof)]
    [] ev.op = "records" -> [p |-> p, r |-> LRecords(p, ev.part, ev.nof)]
=============================================================================

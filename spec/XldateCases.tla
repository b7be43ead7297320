---------------------------- MODULE XldateCases ----------------------------
(* Judge of recorded conversions of serial numbers. *)
EXTENDS Xldate, Json, TLC, SequencesExt

CONSTANT CaseFile
Chunks == JsonDeserialize(CaseFile)
VARIABLES i, done

\* Runs of consecutive days lo..hi: [first, count, y, m, d] says that the days
\* first..first+count-1 gave y-m-d..y-m-(d+count-1) at midnight by both
\* functions and that xldate_from_date_tuple gave the serial back.
RunFails(c) ==
  LET r == c.runs IN
  {<<"run", r[k]>> : k \in {k \in DOMAIN r :
     \/ SerialDate(c.mode, r[k][1]) # <<r[k][3], r[k][4], r[k][5]>>
     \/ SerialDate(c.mode, r[k][1] + r[k][2] - 1) # <<r[k][3], r[k][4], r[k][5] + r[k][2] - 1>>
     \/ r[k][1] # IF k = 1 THEN c.lo ELSE r[k - 1][1] + r[k - 1][2]}}
  \cup (IF r[Len(r)][1] + r[Len(r)][2] - 1 # c.hi THEN {<<"hi", c.hi>>} ELSE {})

SerialOK(x) ==
  /\ x.tup \in AsTuple(x.mode, x.neg, x.n, x.u)
  /\ x.mode \notin {0, 1} \/ x.neg \/ <<"error">> \in AsDatetime(x.mode, x.n, x.u)
     \/ x.dt \in AsDatetime(x.mode, x.n, x.u)
  \* they tell the same time (the tuple rounds)
  /\ (x.tup[1] = "t" /\ x.tup[2] # 0 /\ x.dt[1] = "d") =>
       LET a == DayNo(x.tup[2], x.tup[3], x.tup[4])
           b == DayNo(x.dt[2], x.dt[3], x.dt[4])
           s == 3600 * x.tup[5] + 60 * x.tup[6] + x.tup[7]
           d == 1000 * s - x.dt[5] + 86400000 * (a - b)
       IN a - b \in {0, 1} /\ d \in -501..501

\* xldate_from_datetime_tuple: [x, n, u] or error
BackOK(x) ==
  LET f == FromDate(x.mode, x.y, x.m, x.d) IN
  IF x.mode \in {0, 1} /\ f[1] = "x" /\ ValidTime(x.h, x.mi, x.s)
  THEN LET u == 10000 * (3600 * x.h + 60 * x.mi + x.s)
       IN /\ x.obs[1] = "x" /\ x.obs[2] = f[2] /\ x.obs[3] - u \in -1..1
          \* and inverse, with or without a date
          /\ x.again = <<"t", x.y, x.m, x.d, x.h, x.mi, x.s>>
  ELSE x.obs[1] \in (IF f[1] = "x" THEN {} ELSE {f[1]})
                    \cup (IF ValidTime(x.h, x.mi, x.s) THEN {} ELSE {"XLDateBadTuple"})

Fails(c) ==
  CASE c.k = "runs" -> RunFails(c)
    [] c.k = "serial" -> {<<"serial", j>> : j \in {j \in DOMAIN c.items : ~SerialOK(c.items[j])}}
    [] OTHER -> {<<"back", j>> : j \in {j \in DOMAIN c.items : ~BackOK(c.items[j])}}

Init == i \in 1..Len(Chunks) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET f == Fails(Chunks[i])
           IN f = {} \/ PrintT("@@" \o ToJson([case |-> i, fails |-> f]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================

------------------------------- MODULE Xldate -------------------------------
(***************************************************************************)
(* Spread sheet serial numbers and the Gregorian calendar.                 *)
(*                                                                         *)
(* A serial number is day + u/864000000, u in units of 0.1 ms.  Mode 0 is  *)
(* the 1900 system (61 is 1900-03-01, a 29 Feb 1900 is counted), mode 1    *)
(* the 1904 system (0 is 1904-01-01).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
ValidDate(y, m, d) == m \in 1..12 /\ d \in 1..MonthLen(y, m)
\* the day after
NextDay(t) == IF t[3] < MonthLen(t[1], t[2]) THEN <<t[1], t[2], t[3] + 1>>
              ELSE IF t[2] < 12 THEN <<t[1], t[2] + 1, 1>> ELSE <<t[1] + 1, 1, 1>>

\* Closed form: days since 0001-01-01 (which is 0).
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
YearStart(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
DayNo(y, m, d) == YearStart(y) + Before[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
YearOf(n) == LET y == n \div 366 + 1      \* never too late
             IN CHOOSE z \in y..(y + 25) : YearStart(z) <= n /\ n < YearStart(z + 1)
DateOf(n) == LET y == YearOf(n)
                 m == CHOOSE k \in 1..12 : DayNo(y, k, 1) <= n /\ n < DayNo(y, k, 1) + MonthLen(y, k)
             IN <<y, m, n - DayNo(y, m, 1) + 1>>

Epoch(mode) == IF mode = 0 THEN DayNo(1900, 3, 1) - 61 ELSE DayNo(1904, 1, 1)
LastDay(mode) == DayNo(9999, 12, 31) - Epoch(mode)     \* last serial day
SerialDate(mode, n) == DateOf(n + Epoch(mode))

---------------------------------------------------------------------------
(* Rounding of u to multiples of k: the nearest, both when u is too near   *)
(* the middle for a float to tell.                                         *)
Rounded(u, k) == LET q == u \div k  r == u % k
                 IN (IF 2 * r <= k + 2 THEN {q} ELSE {}) \cup (IF 2 * r >= k - 2 THEN {q + 1} ELSE {})

HMS(s) == <<s \div 3600, (s \div 60) % 60, s % 60>>

\* What xldate_as_tuple may answer.
AsTuple(mode, neg, n, u) ==
  IF mode \notin {0, 1} THEN {<<"XLDateBadDatemode">>}
  ELSE IF neg THEN {<<"XLDateNegative">>}
  ELSE {LET day == IF s = 86400 THEN n + 1 ELSE n
            t == HMS(s % 86400)
        IN IF day > LastDay(mode) THEN <<"XLDateTooLarge">>
           ELSE IF day = 0 THEN <<"t", 0, 0, 0>> \o t
           ELSE IF day < 61 /\ mode = 0 THEN <<"XLDateAmbiguous">>
           ELSE <<"t">> \o SerialDate(mode, day) \o t
        : s \in Rounded(u, 10000)}

\* What xldate_as_datetime may answer: <<"d", y, m, d, ms of the day>>;
\* before 1900-03-01 of the 1900 system 1 is 1900-01-01.
AsDatetime(mode, n, u) ==
  {LET day == IF ms = 86400000 THEN n + 1 ELSE n
       e == IF mode = 0 /\ n < 60 THEN Epoch(0) + 1 ELSE Epoch(mode)
   IN IF day > LastDay(mode) THEN <<"error">>
      ELSE <<"d">> \o DateOf(day + e) \o <<ms % 86400000>>
   : ms \in Rounded(u, 10)}

\* Serial number of a date: <<"x", n>> or the error.
FromDate(mode, y, m, d) ==
  IF mode \notin {0, 1} THEN <<"XLDateBadDatemode">>
  ELSE IF <<y, m, d>> = <<0, 0, 0>> THEN <<"x", 0>>
  ELSE IF y \notin 1900..9999 \/ ~ValidDate(y, m, d) THEN <<"XLDateBadTuple">>
  ELSE LET n == DayNo(y, m, d) - Epoch(mode)
       IN IF n <= 0 THEN <<"XLDateBadTuple">>
          ELSE IF mode = 0 /\ n < 61 THEN <<"XLDateAmbiguous">> ELSE <<"x", n>>
ValidTime(h, m, s) == h \in 0..23 /\ m \in 0..59 /\ s \in 0..59
=============================================================================

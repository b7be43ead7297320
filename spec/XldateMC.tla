------------------------------ MODULE XldateMC ------------------------------
(***************************************************************************)
(* The calendar walked day by day with the rule for the next day, in       *)
(* parallel from several starts, against the closed forms.                 *)
(***************************************************************************)
EXTENDS Xldate

CONSTANTS From, To, Span      \* years
VARIABLES date, n
Starts == {y \in From..To : (y - From) % Span = 0}
Init == \E y \in Starts : date = <<y, 1, 1>> /\ n = YearStart(y)
Next == /\ date[1] < To /\ ~(date[2] = 12 /\ date[3] = 31 /\ (date[1] + 1) \in Starts)
        /\ date' = NextDay(date) /\ n' = n + 1
Spec == Init /\ [][Next]_<<date, n>>

Closed == DayNo(date[1], date[2], date[3]) = n /\ DateOf(n) = date
Valid == ValidDate(date[1], date[2], date[3])
\* In both systems serial and date determine each other; 1462 days between them.
Inverse == \A mode \in {0, 1} :
  LET s == n - Epoch(mode) IN
  (s >= (IF mode = 0 THEN 61 ELSE 1) /\ s <= LastDay(mode)) =>
     /\ FromDate(mode, date[1], date[2], date[3]) = <<"x", s>>
     /\ AsTuple(mode, FALSE, s, 0) = {<<"t">> \o date \o <<0, 0, 0>>}
     /\ AsDatetime(mode, s, 0) = {<<"d">> \o date \o <<0>>}
\* Known points
Points == /\ SerialDate(0, 61) = <<1900, 3, 1>> /\ SerialDate(1, 1) = <<1904, 1, 2>>
          /\ LastDay(0) = 2958465 /\ LastDay(1) = 2958465 - 1462 /\ Epoch(1) - Epoch(0) = 1462
=============================================================================

------------------------------ MODULE BiffOldMC ------------------------------
(***************************************************************************)
(* A writer of small sheets in every version of the format before 8.  It   *)
(* puts values in places, one after the other, each in any record of the   *)
(* version that can hold it; `sheet` is what it meant to write.            *)
(***************************************************************************)
EXTENDS Biff, Json

CONSTANTS Profile, MaxCells
VARIABLES ver, sheet, recs

Vers == {20, 21, 30, 40, 45, 50, 70}
Places == {<<0, 0>>, <<0, 2>>, <<1, 0>>}
\* of code page 932: one byte above 127, and characters of two bytes
Page == [one |-> [i \in 1..256 |-> CASE i - 1 < 128 -> i - 1 [] i - 1 = 177 -> 65393
                                     [] i - 1 \in (129..159) \cup (224..252) -> -1 [] OTHER -> 65533],
         two |-> << <<147, 250, 26085>>, <<140, 234, 35486>> >>]
N(neg, ds, e) == <<"n", neg, ds, e>>
Values ==
  {<<"num", N(FALSE, <<53>>, 0)>>, <<"num", N(TRUE, <<49, 53>>, -1)>>, <<"num", N(FALSE, <<54, 53, 53, 51, 53>>, 0)>>,
   <<"num", N(FALSE, <<>>, 0)>>, <<"date", N(FALSE, <<52>>, 4)>>, <<"date", N(FALSE, <<52, 48, 48, 48, 48, 53>>, -1)>>,
   <<"s", <<>>>>, <<"s", <<97, 98>>>>, <<"s", <<26085, 97>>>>, <<"s", <<65393, 35486>>>>, <<"b", 1>>, <<"b", 0>>, <<"e", 42>>}
Few == {<<"num", N(FALSE, <<53>>, 0)>>, <<"date", N(FALSE, <<52>>, 4)>>, <<"s", <<26085, 97>>>>, <<"e", 42>>}
\* numbers above as small integers where they are
AsInt(x) == CASE x = N(FALSE, <<53>>, 0) -> <<5>> [] x = N(FALSE, <<54, 53, 53, 51, 53>>, 0) -> <<65535>>
              [] x = N(FALSE, <<>>, 0) -> <<0>> [] x = N(FALSE, <<52>>, 4) -> <<40000>> [] OTHER -> <<>>
TextBytes(t) == FlattenSeq([i \in DOMAIN t |-> CASE t[i] = 26085 -> <<147, 250>> [] t[i] = 35486 -> <<140, 234>>
                                                   [] t[i] = 65393 -> <<177>> [] OTHER -> <<t[i]>>])
Counted(v, t) == LET x == TextBytes(t) IN (IF v < 30 THEN <<Len(x)>> ELSE <<Len(x), 0>>) \o x

\* formats: key 0 General, 1 yyyy-mm-dd, 2 0.00; from version 5 on keys are in the records
Codes == << <<71, 101, 110, 101, 114, 97, 108>>, <<121, 121, 121, 121, 45, 109, 109, 45, 100, 100>>, <<48, 46, 48, 48>> >>
Fmts(v) == IF v >= 50 THEN << <<170, Codes[2]>>, <<165, Codes[3]>> >> ELSE [i \in DOMAIN Codes |-> <<i - 1, Codes[i]>>]
\* from version 2.1 on: 65 formats so that numbers above 62 occur
Xfs(v) == CASE v = 20 -> <<>>
            [] v >= 50 -> <<0, 170, 14, 165, 2>>
            [] v = 21 -> [i \in 1..66 |-> IF i = 65 THEN 1 ELSE IF i = 2 THEN 1 ELSE IF i = 3 THEN 2 ELSE 0]
            [] OTHER -> <<0, 1, 2>>
DateXf(v) == CASE v = 20 -> {<<0, 1>>} [] v = 21 -> {<<1, 2>>, <<63, 0>>} [] v >= 50 -> {1, 2} [] OTHER -> {1}
NumXf(v) == CASE v = 20 -> {<<0, 0>>, <<0, 2>>} [] v = 21 -> {<<0, 1>>, <<2, 1>>} [] v >= 50 -> {3} [] OTHER -> {2}
\* the record needed before a cell with this format
Pre(v, xf) == IF v = 21 /\ xf[1] = 63 THEN << <<"IXFE", 64>> >> ELSE <<>>

Ways(v, r, c, x) ==
  LET xfs == IF x[1] = "date" THEN DateXf(v) ELSE NumXf(v)
      cells(xf) ==
        CASE x[1] \in {"num", "date"} ->
               {<< <<"NUMBER", r, c, xf, x[2]>> >>, << <<"FORMULA", r, c, xf, <<"n", x[2]>>>> >>}
               \cup (IF v < 30 /\ AsInt(x[2]) # <<>> THEN {<< <<"INTEGER", r, c, xf, AsInt(x[2])[1]>> >>} ELSE {})
               \cup (IF v >= 30 /\ AsInt(x[2]) # <<>>
                     THEN {<< <<"RK", r, c, xf, <<"i", 4 * AsInt(x[2])[1] + 2>>>> >>, << <<"RK", r, c, xf, <<"i", 400 * AsInt(x[2])[1] + 3>>>> >>}
                     ELSE {})
          [] x[1] = "s" ->
               {<< <<"LABEL", r, c, xf, Counted(v, x[2])>> >>}
               \cup (IF v >= 50 THEN {<< <<"RSTRING", r, c, xf, Counted(v, x[2])>> >>} ELSE {})
               \cup {<< <<"FORMULA", r, c, xf, <<"s">>>> >> \o a \o << <<"STRING", s>> >> :
                       a \in {<<>>, << <<"ARRAY">> >>},
                       s \in {<<Counted(v, x[2])>>} \cup
                             (IF Len(x[2]) < 2 THEN {} ELSE {LET y == Counted(v, x[2]) IN <<SubSeq(y, 1, Len(y) - 1), <<y[Len(y)]>>>>})}
          [] OTHER -> {<< <<"BOOLERR", r, c, xf, x[2], IF x[1] = "e" THEN 1 ELSE 0>> >>,
                       << <<"FORMULA", r, c, xf, <<x[1], x[2]>>>> >>}
  IN UNION {{Pre(v, xf) \o w : w \in cells(xf)} : xf \in xfs}

Name1 == <<66, 108, 97, 100>>
BookOf(v, rs) ==
  LET last == <<"BOOLERR", 2, 3, IF v < 30 THEN <<0, 0>> ELSE 0, 1, 0>>
      s == <<Name1, 0, Append(rs, last)>> \o (IF v = 45 THEN <<Fmts(v), Xfs(v)>> ELSE <<>>)
  IN [ver |-> v, cp |-> Page, mode |-> 0, fmts |-> Fmts(v), xfs |-> Xfs(v), sst |-> <<>>, sheets |-> <<s>>]
All == [sheet |-> <<"i", 0>>, header |-> <<"F">>, start |-> <<>>, stop |-> <<>>, usecols |-> <<>>]
Line(b) == [files |-> <<[form |-> "xls", x |-> b, ole |-> <<>>]>>, calls |-> <<[file |-> 1, a |-> All]>>,
            e |-> <<SheetPack(BiffBook(b), All)>>]

Write == /\ Len(sheet) < MaxCells
         /\ \E p \in Places : \E x \in IF Profile = "few" THEN Few ELSE Values : \E w \in Ways(ver, p[1], p[2], x) :
              /\ \A i \in DOMAIN sheet : <<sheet[i][1], sheet[i][2]>> # p
              /\ sheet' = Append(sheet, <<p[1], p[2], x>>)
              /\ recs' = recs \o w
              /\ PrintT("@@" \o ToJson(Line(BookOf(ver, recs'))))
         /\ UNCHANGED ver
Init == ver \in Vers /\ sheet = <<>> /\ recs = <<>>
Spec == Init /\ [][Write]_<<ver, sheet, recs>>

\* The book holds what was written, whatever version.
Meant == BiffBook(BookOf(ver, recs)).sheets[1].cells = Append(sheet, <<2, 3, <<"b", 1>>>>)
=============================================================================

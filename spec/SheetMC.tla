------------------------------ MODULE SheetMC -------------------------------
(***************************************************************************)
(* Small scope enumeration for spread sheets, by profile:                  *)
(*   note    every notation up to Bound characters                         *)
(*   code    every number format code up to Bound characters               *)
(*   column  every column of up to Bound cells, in xls and xlsx            *)
(*   range   every combination of arguments on a 3 x 3 sheet               *)
(*   place   worksheet XML built element by element, references given or   *)
(*           left out, up to Bound elements                                *)
(* What is reached is printed with the expected reading for replay.        *)
(***************************************************************************)
EXTENDS Biff, Xlsx, Json

CONSTANTS Profile, Bound
VARIABLE x
Emit(r) == PrintT("@@" \o ToJson(r))

---------------------------------------------------------------------------
NoteAlphabet == {65, 90, 98, 48, 49, 58, 44, 32, 36}
\* lists whose meaning is settled: no blanks within items, no reversed ranges
ListDefined(s) ==
  LET items == [i \in DOMAIN SplitOn(s, <<44>>) |-> Strip(SplitOn(s, <<44>>)[i], IsSpace)]
  IN /\ \E i \in DOMAIN items : items[i] # <<>>
     /\ \A i \in DOMAIN items : \A j \in DOMAIN items[i] : items[i][j] # 32
     /\ \A i \in DOMAIN items : LET p == SplitOn(items[i], <<58>>)
                                IN Len(p) = 2 /\ ColNum(p[1]) # <<>> /\ ColNum(p[2]) # <<>>
                                   => ColNum(p[1])[1] <= ColNum(p[2])[1]
Sorted(S) == IF S = {} THEN <<>> ELSE SetToSortSeq(S, <)
NoteLine(s) == [t |-> s, letters |-> ColNum(s), cell |-> CellRef(s),
                list |-> IF ~ListDefined(s) THEN <<"skip">>
                         ELSE IF ColumnList(s) = <<>> THEN <<"err">> ELSE <<"ok">> \o Sorted(ColumnList(s)[1])]
NoteNext == /\ Len(x) < Bound
            /\ \E c \in NoteAlphabet : x' = Append(x, c) /\ Emit(NoteLine(x'))

---------------------------------------------------------------------------
CodeAlphabet == {121, 48, 34, 92, 91, 93, 95, 59, 32, 77}
CodeNext == /\ Len(x) < Bound
            /\ \E c \in CodeAlphabet : x' = Append(x, c) /\ Emit([t |-> x', date |-> IsDateCode(x')])

---------------------------------------------------------------------------
(* Files of one sheet *)
S1 == <<83>>
Num(ds, e) == <<"n", FALSE, ds, e>>
PathS == <<120, 108, 47, 119, 111, 114, 107, 115, 104, 101, 101, 116, 115, 47, 115, 46, 120, 109, 108>>  \* xl/worksheets/s.xml
TargetS == SubSeq(PathS, 4, Len(PathS))
Package(rows) == [rels |-> <<<<"rId1", "worksheet", TargetS>>>>, date1904 |-> <<>>, sheets |-> <<<<S1, "rId1">>>>,
  styles |-> <<[fmts |-> <<>>, xfs |-> <<<<0>>, <<14>>>>]>>, sst |-> <<>>, parts |-> <<<<PathS, rows, <<>>>>>>]
Records(rs) == [mode |-> 0, fmts |-> <<>>, xfs |-> <<0, 14>>, sst |-> <<>>, sheets |-> <<<<S1, 0, rs>>>>]
File(form, v) == [form |-> form, x |-> v, ole |-> <<>>]
All == [sheet |-> <<"i", 0>>, header |-> <<"F">>, start |-> <<>>, stop |-> <<>>, usecols |-> <<>>]

\* the ways a cell of kind v can be written in column c of row r
Latin(s) == <<Len(s), 0, 0>> \o s
AsRecord(v, r, c) ==
  CASE v[1] = "num" -> <<"NUMBER", r, c, 0, v[2]>>
    [] v[1] = "date" -> <<"NUMBER", r, c, 1, v[2]>>
    [] v[1] = "s" -> <<"LABEL", r, c, 0, Latin(v[2])>>
    [] v[1] = "b" -> <<"BOOLERR", r, c, 0, v[2], 0>>
    [] v[1] = "e" -> <<"BOOLERR", r, c, 0, v[2], 1>>
    [] OTHER -> <<"BLANK", r, c, 0>>
XC == [r |-> <<>>, s |-> <<>>, t |-> <<>>, v |-> <<>>, is |-> <<>>]
V(t) == <<<<FALSE, t>>>>
NumText(n) == n[3]                        \* the numbers used have e = 0 and are positive
AsXml(v) ==
  CASE v[1] = "num" -> [XC EXCEPT !.v = V(NumText(v[2]))]
    [] v[1] = "date" -> [XC EXCEPT !.v = V(NumText(v[2])), !.s = <<1>>]
    [] v[1] = "s" -> [XC EXCEPT !.t = <<"str">>, !.v = V(v[2])]
    [] v[1] = "b" -> [XC EXCEPT !.t = <<"b">>, !.v = V(<<48 + v[2]>>)]
    [] v[1] = "e" -> [XC EXCEPT !.t = <<"e">>, !.v = V(ErrorCodes[1][2])]
    [] OTHER -> XC
Vals == {<<"none">>, <<"num", Num(<<55>>, 0)>>, <<"s", <<97>>>>, <<"s", <<>>>>, <<"b", 0>>, <<"b", 1>>,
         <<"date", Num(<<51, 54, 53, 50, 54>>, 0)>>, <<"e", 0>>}
\* the last cell holds something so that the extent is as written
ColumnFile(form, vs) ==
  File(form, IF form = "xls" THEN Records([i \in DOMAIN vs |-> AsRecord(vs[i], i - 1, 0)] \o
                                           <<<<"NUMBER", Len(vs) - 1, 1, 0, Num(<<49>>, 0)>>>>)
             ELSE Package([i \in DOMAIN vs |-> <<<<>>, <<AsXml(vs[i])>> \o
                             (IF i = Len(vs) THEN <<[XC EXCEPT !.v = V(<<49>>)]>> ELSE <<>>)>>]))
Book1(f) == IF f.form = "xlsx" THEN XlsxBook(f.x) ELSE BiffBook(f.x)
FileLine(f, as) == [files |-> <<f>>, calls |-> [k \in DOMAIN as |-> [file |-> 1, a |-> as[k]]],
                    e |-> [k \in DOMAIN as |-> SheetPack(Book1(f), as[k])]]
ColumnNext ==
  /\ Len(x) < Bound
  /\ \E v \in Vals : x' = Append(x, v)
  /\ \A form \in {"xls", "xlsx"} :
       Emit(FileLine(ColumnFile(form, x'), <<All, [All EXCEPT !.header = <<"T">>]>>))

---------------------------------------------------------------------------
Grid == [i \in 1..9 |-> AsRecord(<<"num", Num(<<49 + ((i - 1) \div 3), 49 + ((i - 1) % 3)>>, 0)>>, (i - 1) \div 3, (i - 1) % 3)]
RangeFile == File("xls", Records(Grid))
Cell(r, c) == <<65 + c, 49 + r>>
Cells9 == {Cell(r, c) : r \in 0..2, c \in 0..2}
Starts == {<<>>} \cup {<<c>> : c \in Cells9} \cup {<<<<66>>>>, <<<<97, 50>>>>}
Stops == {<<>>} \cup {<<c>> : c \in Cells9}
Heads == {<<"T">>, <<"F">>, <<"s", <<65, 49>>>>, <<"s", <<67, 50>>>>, <<"s", <<66>>>>}
Uses == {<<>>} \cup {<<<<"l", s>>>> : s \in {<<0>>, <<1>>, <<2, 1>>, <<0, 2>>, <<1, 1>>, <<2>>, <<3>>}}
        \cup {<<<<"s", s>>>> : s \in {<<65>>, <<66, 58, 67>>, <<67, 44, 32, 65>>, <<98>>, <<65, 58, 66, 44, 67>>}}
RangeNext ==      \* one step: pick the arguments
  /\ x = <<>>
  /\ \E st \in Starts : \E sp \in Stops : \E h \in Heads : \E us \in Uses :
       LET a == [All EXCEPT !.start = st, !.stop = sp, !.header = h, !.usecols = us]
       IN x' = <<a>> /\ Emit([a |-> a, e |-> SheetPack(BiffBook(RangeFile.x), a)])

---------------------------------------------------------------------------
(* x: rows of XML *)
RowIndex(rows) == FoldLeft(LAMBDA last, row : IF row[1] = <<>> THEN last + 1 ELSE row[1][1] - 1, -1, rows)
Elements(rows) == Len(rows) + FoldLeft(LAMBDA n, row : n + Len(row[2]), 0, rows)
RowNums(rows) == {<<>>, <<RowIndex(rows) + 2>>, <<RowIndex(rows) + 4>>}
                 \cup (IF rows # <<>> /\ RowIndex(rows) > 1 THEN {<<1>>} ELSE {})
CellChoices(r) == {[c EXCEPT !.r = ref] : c \in {[XC EXCEPT !.v = V(<<53>>)], [XC EXCEPT !.t = <<"str">>, !.v = V(<<97>>)], XC},
                   ref \in {<<>>} \cup {<<<<65 + k>> \o NatDigits(r + 1)>> : k \in {0, 1, 3}}}
PlaceNext ==
  /\ Elements(x) < Bound
  /\ \/ \E n \in RowNums(x) : x' = Append(x, <<n, <<>>>>)
     \/ /\ x # <<>>
        /\ \E c \in CellChoices(RowIndex(x)) :
             x' = [x EXCEPT ![Len(x)] = <<@[1], Append(@[2], c)>>]
  /\ LET f == File("xlsx", Package(x'))
     IN SheetPack(XlsxBook(f.x), All).st = "unspecified" \/ Emit(FileLine(f, <<All>>))

---------------------------------------------------------------------------
Init == x = <<>> /\ (Profile = "range" => Emit([files |-> <<RangeFile>>]))
Next == CASE Profile = "note" -> NoteNext
          [] Profile = "code" -> CodeNext
          [] Profile = "column" -> ColumnNext
          [] Profile = "range" -> RangeNext
          [] OTHER -> PlaceNext
Spec == Init /\ [][Next]_x

---------------------------------------------------------------------------
(* Properties of the specification *)
ASSUME \A n \in 0..1500 : ColNum(ColLetters(n)) = <<n>>
ASSUME ColNum(<<65, 77, 74>>) = <<1023>> /\ ColNum(<<88, 70, 68>>) = <<16383>>
\* notations do not depend on the case of letters, a list is the union of its parts
Notes ==
  Profile = "note" =>
    /\ ColNum([i \in DOMAIN x |-> Upper(x[i])]) = ColNum(x)
    /\ CellRef([i \in DOMAIN x |-> Upper(x[i])]) = CellRef(x)
    /\ \A i \in DOMAIN x : x[i] = 44 =>
         LET a == ColumnList(SubSeq(x, 1, i - 1))  b == ColumnList(SubSeq(x, i + 1, Len(x)))
         IN ColumnList(x) = IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<a[1] \cup b[1]>>
    /\ CellRef(x) # <<>> => CellRef(x)[1][1] >= -1 /\ ColNum(x) = (IF CellRef(x)[1][1] = -1 THEN <<CellRef(x)[1][2]>> ELSE <<>>)
\* quoted text and bracketed parts say nothing about dates
Codes ==
  Profile = "code" =>
    LET plain == \A i \in DOMAIN x : x[i] \notin {34, 92, 91, 93, 95}
    IN plain => /\ IsDateCode(x \o <<34, 121, 121, 34>>) = IsDateCode(x)
                /\ IsDateCode(<<91, 121, 93>> \o x) = IsDateCode(x)
                /\ IsDateCode(x \o <<92, 121>>) = IsDateCode(x)
                /\ IsDateCode(x \o x) = IsDateCode(x)
\* both file formats hold the same
SameInBoth ==
  Profile = "column" /\ x # <<>> =>
    LET a == BiffBook(ColumnFile("xls", x).x)  b == XlsxBook(ColumnFile("xlsx", x).x)
    IN SheetPack(a, All) = SheetPack(b, All)
\* giving the references that were left out changes nothing
Explicit(rows) ==
  [i \in DOMAIN rows |->
     LET r == RowIndex(SubSeq(rows, 1, i))
         cs == rows[i][2]
         col(k) == FoldLeft(LAMBDA last, c : IF c.r = <<>> THEN last + 1 ELSE CellRef(c.r[1])[1][2], -1, SubSeq(cs, 1, k))
     IN <<<<r + 1>>, [k \in DOMAIN cs |-> [cs[k] EXCEPT !.r = <<ColLetters(col(k)) \o NatDigits(r + 1)>>]]>>]
RefsOptional ==
  Profile = "place" => XlsxBook(Package(x)) = XlsxBook(Package(Explicit(x)))
\* a range shows what the whole sheet has there
RangeOK ==
  Profile = "range" /\ x # <<>> =>
    LET w == BiffBook(RangeFile.x)
        e == SheetPack(w, x[1])
        full == SheetPack(w, All)
    IN e.st = "ok" =>
         \A k \in DOMAIN e.data : \E j \in DOMAIN full.data :
            /\ full.data[j][1] = e.data[k][1]
            /\ \E off \in 0..3 : \A i \in DOMAIN e.data[k][3] :
                 off + i \in DOMAIN full.data[j][3] /\ e.data[k][3][i] = full.data[j][3][off + i]
=============================================================================

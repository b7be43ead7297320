-------------------------------- MODULE Xlsx --------------------------------
(***************************************************************************)
(* The workbook an xlsx package holds.  The package p is the content of    *)
(* its XML parts:                                                          *)
(*   rels     <<id, type, target>>           (workbook relations)          *)
(*   date1904 option of the attribute        sheets  <<name, relation id>> *)
(*   styles   option of [fmts, xfs], xfs a sequence of options of ids      *)
(*   sst      sequence of strings, a string a sequence of nodes            *)
(*            <<"t", preserve, text>>, <<"r", nodes>>, <<"p", nodes>>      *)
(*   parts    <<path, rows, merged>>; a row <<option of r, cells>>; a cell *)
(*            [r, s, t, v, is], all options                                *)
(***************************************************************************)
EXTENDS Sheet, NumFmt

IsXmlSpace(c) == c \in {9, 10, 13, 32}
IsHex(c) == IsDigit(c) \/ CharIn(c, 65, 70) \/ CharIn(c, 97, 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE Upper(c) - 55
EscapeAt(s, i) == /\ i + 6 <= Len(s) /\ s[i] = 95 /\ s[i + 1] = 120 /\ s[i + 6] = 95
                  /\ \A k \in 2..5 : IsHex(s[i + k])
\* _xHHHH_ is one character
Unescape(s) ==
  FoldLeft(LAMBDA acc, i :        \* acc: <<text, next position to look at>>
     IF i < acc[2] THEN acc
     ELSE IF EscapeAt(s, i)
     THEN <<Append(acc[1], FoldLeft(LAMBDA v, k : 16 * v + HexVal(s[i + k]), 0, <<2, 3, 4, 5>>)), i + 7>>
     ELSE <<Append(acc[1], s[i]), i + 1>>,
     <<<<>>, 1>>, Ident(Len(s)))[1]
Cooked(preserve, text) == Unescape(IF preserve THEN text ELSE Strip(text, IsXmlSpace))

NodeText(n) == Cooked(n[2], n[3])
StringText(nodes) ==      \* plain and rich text; phonetic runs are not part of it
  FlattenSeq([i \in DOMAIN nodes |->
    CASE nodes[i][1] = "t" -> NodeText(nodes[i])
      [] nodes[i][1] = "r" -> FlattenSeq([k \in DOMAIN nodes[i][2] |-> NodeText(nodes[i][2][k])])
      [] OTHER -> <<>>])

ErrorCodes == << <<0, <<35, 78, 85, 76, 76, 33>>>>, <<7, <<35, 68, 73, 86, 47, 48, 33>>>>,
  <<15, <<35, 86, 65, 76, 85, 69, 33>>>>, <<23, <<35, 82, 69, 70, 33>>>>,
  <<29, <<35, 78, 65, 77, 69, 63>>>>, <<36, <<35, 78, 85, 77, 33>>>>, <<42, <<35, 78, 47, 65>>>> >>
ErrorCode(t) == LET i == CHOOSE i \in DOMAIN ErrorCodes : ErrorCodes[i][2] = t IN ErrorCodes[i][1]
TrueTexts == {<<49>>, <<116, 114, 117, 101>>, <<111, 110>>}

IsDateXf(p, s) ==
  IF p.styles = <<>> THEN FALSE
  ELSE LET st == p.styles[1]
           id == IF st.xfs[s + 1] = <<>> THEN 0 ELSE st.xfs[s + 1][1]
       IN IsDateFmt(id, st.fmts)

\* Value of a cell, <<>> for none.
CellValues(p, c) ==
  LET t == IF c.t = <<>> THEN "n" ELSE c.t[1]
      v == IF c.v = <<>> THEN <<>> ELSE c.v[1][2]
  IN CASE t = "n" -> IF v = <<>> THEN <<>>
                     ELSE << <<IF IsDateXf(p, IF c.s = <<>> THEN 0 ELSE c.s[1]) THEN "date" ELSE "num",
                               ParseFloat(v, "b")[1]>> >>
       [] t = "s" -> IF v = <<>> THEN <<>> ELSE << <<"s", StringText(p.sst[NatVal(v) + 1])>> >>
       [] t = "str" -> << <<"s", IF c.v = <<>> THEN <<>> ELSE Cooked(c.v[1][1], v)>> >>
       [] t = "b" -> << <<"b", IF v \in TrueTexts THEN 1 ELSE 0>> >>
       [] t = "e" -> << <<"e", IF c.v = <<>> THEN 42 ELSE ErrorCode(v)>> >>
       [] OTHER -> LET x == IF c.is = <<>> THEN v ELSE StringText(c.is[1])
                   IN IF x = <<>> THEN <<>> ELSE << <<"s", x>> >>

Plain(ref) == SelectSeq(ref, LAMBDA x : x # 36)          \* $A$1 is A1
RowCells(p, row, r) ==    \* cells of a row at row index r
  FoldLeft(LAMBDA acc, c :       \* acc: <<cells, last column>>
     LET col == IF c.r = <<>> THEN acc[2] + 1 ELSE CellRef(Plain(c.r[1]))[1][2]
         v == CellValues(p, c)
     IN <<IF v = <<>> THEN acc[1] ELSE Append(acc[1], <<r, col, v[1]>>), col>>,
     <<<<>>, -1>>, row[2])[1]
SheetCells(p, rows) ==
  FoldLeft(LAMBDA acc, row :
     LET r == IF row[1] = <<>> THEN acc[2] + 1 ELSE row[1][1] - 1
     IN <<acc[1] \o RowCells(p, row, r), r>>,
     <<<<>>, -1>>, rows)[1]
\* merged ranges <<first ref, last ref>> exist even when they hold nothing
Extent(merged) ==
  LET m(k) == Max({0} \cup {CellRef(merged[i][2])[1][k] + 1 : i \in DOMAIN merged})
  IN <<m(1), m(2)>>

PathText(t) == LowerText(Replace(t, 92, 47))
\* from the root, or relative to xl/; . is here and .. is above
PathOf(target) ==
  LET t == PathText(target)
      segs == SplitOn(IF t # <<>> /\ t[1] = 47 THEN t ELSE <<120, 108, 47>> \o t, <<47>>)
      path == FoldLeft(LAMBDA acc, x : IF x = <<>> \/ x = <<46>> THEN acc
                                       ELSE IF x = <<46, 46>> THEN SubSeq(acc, 1, Len(acc) - 1)
                                       ELSE Append(acc, x), <<>>, segs)
  IN FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE <<47>>) \o path[i], <<>>, Ident(Len(path)))
Rel(p, id) == p.rels[Max({i \in DOMAIN p.rels : p.rels[i][1] = id})]
Part(p, path) == p.parts[Max({i \in DOMAIN p.parts : PathText(p.parts[i][1]) = path})]

XlsxBook(p) ==
  LET ws == SelectSeq(p.sheets, LAMBDA s : Rel(p, s[2])[2] = "worksheet")
  IN [mode |-> IF p.date1904 # <<>> /\ p.date1904[1] \in TrueTexts THEN 1 ELSE 0,
      sheets |-> [i \in DOMAIN ws |->
        LET part == Part(p, PathOf(Rel(p, ws[i][2])[3]))
        IN [name |-> Unescape(ws[i][1]), cells |-> SheetCells(p, part[2]), ext |-> Extent(part[3])]]]
=============================================================================

------------------------------- MODULE Sheet --------------------------------
(***************************************************************************)
(* Spread sheets: notations, workbooks and the pack of a range.            *)
(*                                                                         *)
(* A workbook is [mode, sheets], a sheet [name, cells, ext], cells a       *)
(* sequence of <<row, column, value>> (0-based, a later one replaces an    *)
(* earlier one) and ext <<rows, columns>> that exist in any case.  Values: *)
(* <<"num", x>>, <<"date", x>> (x a number as in TextRead), <<"s", text>>, *)
(* <<"b", 0 or 1>>, <<"e", code>>.                                         *)
(***************************************************************************)
EXTENDS TextRead, Xldate

---------------------------------------------------------------------------
(* Notations.  Options: <<>> is refused. *)
ColNum(s) ==
  IF s = <<>> \/ \E i \in DOMAIN s : ~IsAlpha(s[i]) THEN <<>>
  ELSE << FoldLeft(LAMBDA acc, c : 26 * acc + Upper(c) - 64, 0, s) - 1 >>
\* The letters of column n, the other way.
RECURSIVE ColLetters(_)
ColLetters(n) == IF n < 26 THEN <<65 + n>>
                 ELSE Append(ColLetters(n \div 26 - 1), 65 + (n % 26))

CellRef(s) ==      \* <<row or -1 when left out, column>>
  LET k == Cardinality({i \in DOMAIN s : \A j \in 1..i : IsAlpha(s[j])})
      letters == SubSeq(s, 1, k)
      digits == SubSeq(s, k + 1, Len(s))
  IN IF k = 0 \/ \E i \in DOMAIN digits : ~IsDigit(digits[i]) THEN <<>>
     ELSE IF digits = <<>> THEN << <<-1, ColNum(letters)[1]>> >>
     ELSE IF NatVal(digits) = 0 THEN <<>>
     ELSE << <<NatVal(digits) - 1, ColNum(letters)[1]>> >>

\* 'C:E, H': the set of columns.
ColumnList(s) ==
  LET items == SelectSeq([i \in DOMAIN SplitOn(s, <<44>>) |-> Strip(SplitOn(s, <<44>>)[i], IsSpace)],
                         LAMBDA x : x # <<>>)
      one(x) == LET p == SplitOn(x, <<58>>)
                IN IF Len(p) = 1 THEN IF ColNum(x) = <<>> THEN <<>> ELSE << {ColNum(x)[1]} >>
                   ELSE IF Len(p) # 2 \/ ColNum(p[1]) = <<>> \/ ColNum(p[2]) = <<>> THEN <<>>
                   ELSE << ColNum(p[1])[1]..ColNum(p[2])[1] >>
  IN IF \E i \in DOMAIN items : one(items[i]) = <<>> THEN <<>>
     ELSE << UNION {one(items[i])[1] : i \in DOMAIN items} >>

---------------------------------------------------------------------------
(* Dates: decimal serial to day and units of 0.1 ms. *)
Shifted(x) ==      \* digits (0..9) of x, <<integer digits, fraction digits>>
  LET ds == [i \in DOMAIN x[3] |-> x[3][i] - 48]
      k == Len(ds) + x[4]          \* digits before the point
  IN IF k <= 0 THEN <<<<>>, [i \in 1..(-k) |-> 0] \o ds>>
     ELSE IF k >= Len(ds) THEN <<ds \o [i \in 1..(k - Len(ds)) |-> 0], <<>>>>
     ELSE <<SubSeq(ds, 1, k), SubSeq(ds, k + 1, Len(ds))>>
TimesFrac(ds, k) ==    \* k times 0.ds: <<integer part, digits of the rest>>
  FoldRight(LAMBDA d, acc : <<(d * k + acc[1]) \div 10, <<(d * k + acc[1]) % 10>> \o acc[2]>>,
            ds, <<0, <<>>>>)
SerialOf(x) ==         \* <<day, units of 0.1 ms>>
  LET p == Shifted(x)
      h == TimesFrac(p[2], 24)  m == TimesFrac(h[2], 60)  s == TimesFrac(m[2], 60)
      f == TimesFrac(s[2], 10000)
      up == IF f[2] # <<>> /\ f[2][1] >= 5 THEN 1 ELSE 0
  IN <<FoldLeft(LAMBDA a, d : 10 * a + d, 0, p[1]),
       ((h[1] * 60 + m[1]) * 60 + s[1]) * 10000 + f[1] + up>>
DateValue(x, mode) == LET s == SerialOf(x)
                      IN IF s[2] = 864000000 THEN CHOOSE v \in AsDatetime(mode, s[1] + 1, 0) : TRUE
                         ELSE CHOOSE v \in AsDatetime(mode, s[1], s[2]) : TRUE

---------------------------------------------------------------------------
(* Cells *)
EMPTY == <<"none">>
CellAt(sh, r, c) ==
  LET S == {i \in DOMAIN sh.cells : sh.cells[i][1] = r /\ sh.cells[i][2] = c}
  IN IF S = {} THEN EMPTY ELSE sh.cells[Max(S)][3]
Rows(sh) == Max({sh.ext[1]} \cup {sh.cells[i][1] + 1 : i \in DOMAIN sh.cells})
Cols(sh) == Max({sh.ext[2]} \cup {sh.cells[i][2] + 1 : i \in DOMAIN sh.cells})
SameCells(a, b) ==
  LET P == {<<a.cells[i][1], a.cells[i][2]>> : i \in DOMAIN a.cells}
           \cup {<<b.cells[i][1], b.cells[i][2]>> : i \in DOMAIN b.cells}
  IN Rows(a) = Rows(b) /\ Cols(a) = Cols(b) /\ \A p \in P : CellAt(a, p[1], p[2]) = CellAt(b, p[1], p[2])

Missing(v) == v = EMPTY \/ v[1] = "e"
Column(vals, mode) ==      \* <<kind, values>>
  LET num == \A i \in DOMAIN vals : Missing(vals[i]) \/ vals[i][1] = "num"
      text == \A i \in DOMAIN vals : Missing(vals[i]) \/ vals[i][1] = "s"
      one(v) == CASE Missing(v) -> IF num THEN <<"nan">> ELSE IF text THEN <<"s", <<>>>> ELSE <<"none">>
                  [] v[1] = "num" -> v[2]
                  [] v[1] = "date" -> DateValue(v[2], mode)
                  [] v[1] = "b" -> <<"b", v[2] = 1>>
                  [] OTHER -> v
  IN <<IF num THEN "num" ELSE IF text THEN "text" ELSE "mixed", [i \in DOMAIN vals |-> one(vals[i])]>>
SmallNum(n) == IF n < 0 THEN NormNum(TRUE, NatDigits(-n), 0) ELSE NormNum(FALSE, NatDigits(n), 0)
NameOf(v) == CASE v = EMPTY -> <<"s", <<>>>>
               [] v[1] \in {"num", "date"} -> v[2]
               [] v[1] \in {"b", "e"} -> SmallNum(v[2])
               [] OTHER -> v

---------------------------------------------------------------------------
(* sheetpack(file, sheet, header, startcell, stopcell, usecols).  The      *)
(* arguments a: sheet <<"i", n>> or <<"n", name>>, header <<"T">>, <<"F">> *)
(* or <<"s", notation>>, start and stop options of notations, usecols an   *)
(* option of <<"s", text>> or <<"l", numbers>>.                            *)
Given(o) == o # <<>> /\ o[1] # <<>>
Res(st, data, names) == [st |-> st, data |-> data, names |-> names]
PackRange(wb, sh, a, start, stop) ==
  LET r0 == IF start[1] < 0 THEN 0 ELSE start[1]
      r1 == stop[1]
      asked == IF a.usecols = <<>> \/ a.usecols[1][2] = <<>> THEN << start[2]..stop[2] >>
               ELSE IF a.usecols[1][1] = "s" THEN ColumnList(a.usecols[1][2])
               ELSE << {a.usecols[1][2][i] : i \in DOMAIN a.usecols[1][2]} >>
      d0 == IF a.header = <<"T">> THEN r0 + 1 ELSE r0
      href == IF a.header[1] = "s" THEN CellRef(a.header[2]) ELSE << <<r0, 0>> >>
      hr == IF href[1][1] < 0 THEN 0 ELSE href[1][1]
      col(c) == Column([i \in 1..(r1 - d0 + 1) |-> CellAt(sh, d0 + i - 1, c)], wb.mode)
  IN IF asked = <<>> \/ href = <<>> THEN Res("error", <<>>, <<>>)
     ELSE IF asked[1] = {} THEN Res("unspecified", <<>>, <<>>)
     ELSE IF Min(asked[1]) < start[2] \/ Max(asked[1]) > stop[2] THEN Res("ValueError", <<>>, <<>>)
     ELSE LET cs == SetToSortSeq(asked[1], <)
          IN Res("ok", [i \in DOMAIN cs |-> <<cs[i]>> \o col(cs[i])],
                 IF a.header = <<"F">> THEN <<>>
                 ELSE [i \in DOMAIN cs |-> <<cs[i], NameOf(CellAt(sh, hr, cs[i]))>>])

SheetPack(wb, a) ==
  LET ix == IF a.sheet[1] = "i" THEN {a.sheet[2] + 1} \cap DOMAIN wb.sheets
            ELSE {i \in DOMAIN wb.sheets : wb.sheets[i].name = a.sheet[2]}
      startref == IF Given(a.start) THEN CellRef(a.start[1]) ELSE << <<0, 0>> >>
      stopref == IF Given(a.stop) THEN CellRef(a.stop[1]) ELSE << <<0, 0>> >>
  IN IF startref = <<>> \/ stopref = <<>> THEN Res("ValueError", <<>>, <<>>)
     ELSE IF ix = {} THEN Res("error", <<>>, <<>>)
     ELSE LET sh == wb.sheets[Min(ix)]
              stop == IF Given(a.stop) THEN stopref[1] ELSE <<Rows(sh) - 1, Cols(sh) - 1>>
          IN IF Rows(sh) = 0 \/ stop[1] < 0 THEN Res("unspecified", <<>>, <<>>)
             ELSE IF stop[1] >= Rows(sh) \/ stop[2] >= Cols(sh) \/ stop[2] < startref[1][2]
                     \/ startref[1][1] > stop[1]
                     \/ (a.header[1] = "s" /\ CellRef(a.header[2]) # <<>>
                         /\ CellRef(a.header[2])[1][1] >= Rows(sh))
             THEN Res("unspecified", <<>>, <<>>)
             ELSE PackRange(wb, sh, a, startref[1], stop)
=============================================================================

-------------------------------- MODULE Biff --------------------------------
(***************************************************************************)
(* The workbook a BIFF (xls) stream holds.  A book b is its records:       *)
(*   mode, fmts <<key, code>>, xfs (format keys), sst (the data of the SST *)
(*   record and its CONTINUE records, sequences of bytes), sheets          *)
(*   <<name, type, records>>, a record starting with its name.  Numbers    *)
(*   in NUMBER and FORMULA records are given as the number, strings as the *)
(*   bytes of the records.                                                 *)
(* Books of versions before 8 also have                                    *)
(*   ver   20, 21, 30, 40, 45 (a version 4 workbook), 50 or 70             *)
(*   cp    the code page of the byte strings: [one, two], one[byte + 1]    *)
(*         the character or -1 for the first byte of two, then two holds   *)
(*         <<first, second, character>>                                    *)
(* In versions 20 and 21 the format of a cell is a pair, <<xf, format>>,   *)
(* only the second (20) or the first (21) meaning something; xf 63 stands  *)
(* for the one of the last IXFE record.  Sheets of a version 45 book have  *)
(* formats of their own: <<name, type, records, fmts, xfs>>.               *)
(***************************************************************************)
EXTENDS Sheet, NumFmt

U2(b, p) == b[p + 1] + 256 * b[p + 2]          \* p counts from 0
U4(b, p) == U2(b, p) + 65536 * U2(b, p + 2)
Bit(f, k) == (f \div k) % 2 = 1

\* 16 bit units to characters
Chars(units) ==
  FoldLeft(LAMBDA acc, u :
     IF CharIn(u, 56320, 57343) /\ acc[2] # <<>>
     THEN <<Append(acc[1], 65536 + 1024 * (acc[2][1] - 55296) + u - 56320), <<>>>>
     ELSE IF CharIn(u, 55296, 56319) THEN <<acc[1], <<u>>>>
     ELSE <<Append(acc[1], u), <<>>>>,
     <<<<>>, <<>>>>, units)[1]

\* n units from chunk k at p: <<units, k, p>>.  A continued chunk starts with
\* the width of its characters.
RECURSIVE Units(_, _, _, _, _)
Units(ch, k, p, n, wide) ==
  LET av == Min({n, (Len(ch[k]) - p) \div (IF wide THEN 2 ELSE 1)})
      here == [i \in 1..av |-> IF wide THEN U2(ch[k], p + 2 * (i - 1)) ELSE ch[k][p + i]]
  IN IF av = n THEN <<here, k, p + av * (IF wide THEN 2 ELSE 1)>>
     ELSE LET rest == Units(ch, k + 1, 1, n - av, Bit(ch[k + 1][1], 1))
          IN <<here \o rest[1], rest[2], rest[3]>>

\* n bytes further
RECURSIVE Skip(_, _, _, _)
Skip(ch, k, p, n) ==
  IF p + n < Len(ch[k]) \/ k = Len(ch) THEN <<k, p + n>>
  ELSE Skip(ch, k + 1, 0, p + n - Len(ch[k]))

\* A string at chunk k, position p, its length in ll bytes: <<text, k, p>>.
UString(ch, k, p, ll) ==
  LET n == IF ll = 1 THEN ch[k][p + 1] ELSE U2(ch[k], p)
      f == ch[k][p + ll + 1]
      rt == IF Bit(f, 8) THEN U2(ch[k], p + ll + 1) ELSE 0
      q == p + ll + 1 + (IF Bit(f, 8) THEN 2 ELSE 0)
      sz == IF Bit(f, 4) THEN U4(ch[k], q) ELSE 0
      u == Units(ch, k, q + (IF Bit(f, 4) THEN 4 ELSE 0), n, Bit(f, 1))
      e == Skip(ch, u[2], u[3], 4 * rt + sz)
  IN <<Chars(u[1]), e[1], e[2]>>

SharedStrings(ch) ==
  IF ch = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA acc, i : LET s == UString(ch, acc[2], acc[3], 2)
                                IN <<Append(acc[1], s[1]), s[2], s[3]>>,
                <<<<>>, 1, 8>>, Ident(U4(ch[1], 4)))[1]

\* The string of a record without continuation, n = 0 possibly without flags
Plain1(bytes, ll) == IF (IF ll = 1 THEN bytes[1] ELSE U2(bytes, 0)) = 0 THEN <<>>
                     ELSE UString(<<bytes>>, 1, 0, ll)[1]

---------------------------------------------------------------------------
\* RK values: <<"i", field>> a field with bit 2 set: a signed integer above two
\* flag bits; <<"f", number, scaled>> the upper 30 bits of that number
RK(x) == IF x[1] = "i" THEN LET v == SmallNum(x[2] \div 4)
                            IN IF x[2] % 2 = 1 /\ v[3] # <<>> THEN <<"n", v[2], v[3], v[4] - 2>> ELSE v
         ELSE IF x[3] /\ x[2][3] # <<>> THEN <<"n", x[2][2], x[2][3], x[2][4] - 2>> ELSE x[2]

Ver(b) == IF "ver" \in DOMAIN b THEN b.ver ELSE 80

\* Byte strings
Decoded(cp, bytes) ==
  FoldLeft(LAMBDA acc, x :
     IF acc[2] # <<>> THEN <<Append(acc[1], CHOOSE c \in {t[3] : t \in {cp.two[k] : k \in DOMAIN cp.two}} :
                                              \E k \in DOMAIN cp.two : cp.two[k] = <<acc[2][1], x, c>>), <<>>>>
     ELSE IF cp.one[x + 1] < 0 THEN <<acc[1], <<x>>>>
     ELSE <<Append(acc[1], cp.one[x + 1]), <<>>>>,
     <<<<>>, <<>>>>, bytes)[1]
ByteString(b, bytes) ==
  LET ll == IF Ver(b) < 30 THEN 1 ELSE 2
      n == IF ll = 1 THEN bytes[1] ELSE U2(bytes, 0)
  IN Decoded(b.cp, SubSeq(bytes, ll + 1, ll + n))
LabelText(b, bytes) == IF Ver(b) < 80 THEN ByteString(b, bytes) ELSE Plain1(bytes, 2)
StringText(b, ch) == IF Ver(b) < 80 THEN ByteString(b, FlattenSeq(ch))
                     ELSE IF U2(ch[1], 0) = 0 THEN <<>> ELSE UString(ch, 1, 0, 2)[1]

\* The format key of xf in record i of sheet s
FormatKey(b, s, i, xf) ==
  CASE Ver(b) = 20 -> xf[2]
    [] Ver(b) = 21 -> LET x == IF xf[1] # 63 THEN xf[1]
                               ELSE s[3][Max({j \in 1..(i - 1) : s[3][j][1] = "IXFE"})][2]
                      IN b.xfs[x + 1]
    [] Ver(b) = 45 -> s[5][xf + 1]
    [] OTHER -> b.xfs[xf + 1]
Numeric(b, s, i, xf, x) ==
  <<IF IsDateFmt(FormatKey(b, s, i, xf), IF Ver(b) = 45 THEN s[4] ELSE b.fmts) THEN "date" ELSE "num", x>>

\* Cells of record i (STRING records belong to the FORMULA before them).
RecordCells(b, sst, s, i) ==
  LET rs == s[3]
      r == rs[i] IN
  CASE r[1] = "NUMBER" -> << <<r[2], r[3], Numeric(b, s, i, r[4], r[5])>> >>
    [] r[1] = "INTEGER" -> << <<r[2], r[3], Numeric(b, s, i, r[4], SmallNum(r[5]))>> >>
    [] r[1] = "RK" -> << <<r[2], r[3], Numeric(b, s, i, r[4], RK(r[5]))>> >>
    [] r[1] = "MULRK" -> [k \in DOMAIN r[4] |-> <<r[2], r[3] + k - 1, Numeric(b, s, i, r[4][k][1], RK(r[4][k][2]))>>]
    [] r[1] = "LABELSST" -> << <<r[2], r[3], <<"s", sst[r[5] + 1]>>>> >>
    [] r[1] \in {"LABEL", "RSTRING"} -> << <<r[2], r[3], <<"s", LabelText(b, r[5])>>>> >>
    [] r[1] = "BOOLERR" -> << <<r[2], r[3], <<IF r[6] = 1 THEN "e" ELSE "b", r[5]>>>> >>
    [] r[1] = "FORMULA" ->
         LET x == r[5]
             v == CASE x[1] = "n" -> Numeric(b, s, i, r[4], x[2])
                    [] x[1] = "b" -> <<"b", x[2]>>
                    [] x[1] = "e" -> <<"e", x[2]>>
                    [] x[1] = "empty" -> <<"s", <<>>>>
                    [] OTHER -> LET j == Min({j \in DOMAIN rs : j > i /\ rs[j][1] = "STRING"})
                                IN <<"s", StringText(b, rs[j][2])>>
         IN << <<r[2], r[3], v>> >>
    [] OTHER -> <<>>          \* BLANK, MULBLANK, ROW, MERGED, ... hold no values

BiffBook(b) ==
  LET ws == SelectSeq(b.sheets, LAMBDA s : s[2] = 0)
      sst == SharedStrings(b.sst)
  IN [mode |-> b.mode,
      sheets |-> [i \in DOMAIN ws |->
        LET rs == ws[i][3]
        IN [name |-> ws[i][1],
            cells |-> FlattenSeq([k \in DOMAIN rs |-> RecordCells(b, sst, ws[i], k)]),
            ext |-> <<0, 0>>]]]          \* merged ranges of xls files are not looked at

\* The book with formatting: cells with a format and no value are blank, and
\* merged ranges <<first row, last row, first column, last column>> exist
RecordBlanks(r) ==
  CASE r[1] = "BLANK" -> << <<r[2], r[3], <<"blank">>>> >>
    [] r[1] = "MULBLANK" -> [k \in DOMAIN r[4] |-> <<r[2], r[3] + k - 1, <<"blank">>>>]
    [] OTHER -> <<>>
BiffBookFmt(b) ==
  LET ws == SelectSeq(b.sheets, LAMBDA s : s[2] = 0)
      wb == BiffBook(b)
      ranges(i) == UNION {{r[2][j] : j \in DOMAIN r[2]} : r \in {x \in {ws[i][3][k] : k \in DOMAIN ws[i][3]} : x[1] = "MERGED"}}
  IN [wb EXCEPT !.sheets = [i \in DOMAIN ws |->
        [wb.sheets[i] EXCEPT
           !.cells = FlattenSeq([k \in DOMAIN ws[i][3] |-> RecordBlanks(ws[i][3][k])]) \o @,
           !.ext = <<Max({0} \cup {m[2] + 1 : m \in ranges(i)}), Max({0} \cup {m[4] + 1 : m \in ranges(i)})>>]]]
=============================================================================

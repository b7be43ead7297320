-------------------------------- MODULE Dbf --------------------------------
(***************************************************************************)
(* Xbase dbf files as sequences of bytes: the abstract table, the file     *)
(* that holds it, and the reading of any such file.                        *)
(*                                                                         *)
(* A field is [name, typ, size, deci] (name a sequence of bytes, typ a     *)
(* byte), a record <<flag, cells>>, cells being sequences of bytes.        *)
(* Values are as in TextRead, and <<"d", y, m, d>> and <<"none">>.         *)
(***************************************************************************)
EXTENDS TextRead

LE(bs) == FoldRight(LAMBDA b, acc : 256 * acc + b, bs, 0)
LE2(n) == <<n % 256, n \div 256>>
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Zeros(n) == [i \in 1..n |-> 0]
PadTo(s, n) == s \o Zeros(n - Len(s))
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

---------------------------------------------------------------------------
(* The file of a table. extra: bytes after the terminator that belong to   *)
(* the header.                                                             *)
FieldBytes(f) == PadTo(f.name, 11) \o <<f.typ>> \o Zeros(4) \o <<f.size, f.deci>> \o Zeros(14)
RecordBytes(r) == <<r[1]>> \o FlattenSeq(r[2])
Encode(fields, records, extra) ==
  <<3, 126, 1, 1>> \o LE4(Len(records)) \o LE2(33 + 32 * Len(fields) + Len(extra))
  \o LE2(1 + Sum([i \in DOMAIN fields |-> fields[i].size])) \o Zeros(20)
  \o FlattenSeq([i \in DOMAIN fields |-> FieldBytes(fields[i])]) \o <<13>> \o extra
  \o FlattenSeq([i \in DOMAIN records |-> RecordBytes(records[i])])

---------------------------------------------------------------------------
(* The table of a file. *)
HeaderLen(b) == LE(SubSeq(b, 9, 10))
FieldsOf(b) ==
  [i \in 1..((HeaderLen(b) - 33) \div 32) |->
     LET o == 32 * i
     IN [name |-> RemoveChar(SubSeq(b, o + 1, o + 11), 0), typ |-> b[o + 12],
         size |-> b[o + 17], deci |-> b[o + 18]]]
RecordsOf(b) ==
  LET fs == FieldsOf(b)
      len == 1 + Sum([i \in DOMAIN fs |-> fs[i].size])
      off(j) == 1 + Sum([i \in 1..(j - 1) |-> fs[i].size])
  IN [k \in 1..LE(SubSeq(b, 5, 8)) |->
        LET o == HeaderLen(b) + (k - 1) * len
        IN <<b[o + 1], [j \in DOMAIN fs |-> SubSeq(b, o + off(j) + 1, o + off(j) + fs[j].size)]>>]

---------------------------------------------------------------------------
(* What a cell holds. *)
SpStrip(s) == Strip(s, IsAsciiSpace)
CellValue(f, c) ==
  CASE f.typ = 78 ->      \* N
         LET t == LStrip(RemoveChar(c, 0), IsAsciiSpace)
         IN IF t = <<>> THEN <<"nan">> ELSE OrErr(ParseFloat(t, "b"))
    [] f.typ = 70 ->      \* F
         IF SpStrip(c) = <<>> THEN <<"nan">> ELSE OrErr(ParseFloat(c, "b"))
    [] f.typ = 68 ->      \* D
         IF SpStrip(c) = <<>> THEN <<"none">>
         ELSE <<"d", NatVal(SubSeq(c, 1, 4)), NatVal(SubSeq(c, 5, 6)), NatVal(SubSeq(c, 7, 8))>>
    [] f.typ = 76 ->      \* L
         IF c[1] \in {89, 121, 84, 116} THEN <<"s", <<84>>>>
         ELSE IF c[1] \in {78, 110, 70, 102} THEN <<"s", <<70>>>> ELSE <<"s", <<63>>>>
    [] OTHER -> <<"s", c>>

\* Live records, as a pack: data and names of the channels in sel.
PackOf(fields, records, sel) ==
  LET live == SelectSeq(records, LAMBDA r : r[1] = 32)
      cols == SetToSortSeq(sel, <)
  IN OK(IF live = <<>> THEN <<>>
        ELSE [j \in DOMAIN cols |->
               <<cols[j] - 1, [k \in DOMAIN live |-> CellValue(fields[cols[j]], live[k][2][cols[j]])]>>],
        [j \in DOMAIN cols |-> <<cols[j] - 1, <<"s", fields[cols[j]].name>>>>])

\* dbfpack(file, names), names an option: a set of names
ReadDbf(b, names) ==
  LET fs == FieldsOf(b)
      sel == IF names = <<>> \/ names[1] = {} THEN DOMAIN fs
             ELSE {i \in DOMAIN fs : fs[i].name \in names[1]}
  IN PackOf(fs, RecordsOf(b), sel)
=============================================================================

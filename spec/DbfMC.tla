------------------------------- MODULE DbfMC --------------------------------
(***************************************************************************)
(* Small dbf tables built record by record, written to bytes, read back.   *)
(***************************************************************************)
EXTENDS Dbf, Tile, Json

CONSTANTS MaxRec, Level
VARIABLES fields, recs, extra

T(s) == s
F(n, t, s, d) == [name |-> n, typ |-> t, size |-> s, deci |-> d]
AllFields ==
  << F(<<65>>, 78, 3, 0), F(<<66, 66>>, 78, 4, 1), F(<<67>>, 70, 4, 2), F(<<68>>, 68, 8, 0),
     F(<<69>>, 76, 1, 0), F(<<70, 95, 49>>, 67, 2, 0) >>
Cells(f) ==
  CASE f.typ = 78 /\ f.deci = 0 -> {<<32, 32, 55>>, <<45, 49, 50>>, <<32, 32, 32>>, <<48, 48, 53>>, <<32, 32, 48>>}
    [] f.typ = 78 -> {<<32, 49, 46, 53>>, <<32, 32, 32, 32>>, <<45, 50, 46, 48>>}
    [] f.typ = 70 -> {<<48, 46, 48, 48>>, <<50, 46, 50, 53>>, <<32, 32, 32, 32>>}
    [] f.typ = 68 -> {<<50, 48, 49, 57, 49, 50, 51, 49>>, <<32, 32, 32, 32, 32, 32, 32, 32>>}
    [] f.typ = 76 -> {<<84>>, <<110>>, <<63>>, <<32>>}
    [] OTHER -> {<<97, 32>>, <<32, 32>>, <<42, 98>>}
Structures == {<<a>> : a \in 1..6} \cup (1..6) \X (1..6)
              \cup (IF Level = 2 THEN {<<1, 6, 4>>, <<5, 3, 2>>, <<6, 1, 5>>} ELSE {})
AnyCells(fs) == IF Len(fs) = 1 THEN {<<a>> : a \in Cells(fs[1])}
                ELSE IF Len(fs) = 2 THEN {<<a, b>> : a \in Cells(fs[1]), b \in Cells(fs[2])}
                ELSE {<<a, b, c>> : a \in Cells(fs[1]), b \in Cells(fs[2]), c \in Cells(fs[3])}

Bytes == Encode(fields, recs, extra)
NameSets == {S \in SUBSET {fields[k].name : k \in DOMAIN fields} : S # {}}
Emission(fs, rs, ex) ==
  LET b == Encode(fs, rs, ex)
      sets == SetToSeq({S \in SUBSET {fs[k].name : k \in DOMAIN fs} : S # {}})
  IN [b |-> b, full |-> ReadDbf(b, <<>>),
      sel |-> [k \in DOMAIN sets |-> <<SetToSeq(sets[k]), ReadDbf(b, <<sets[k]>>)>>]]

Init == /\ \E s \in Structures : fields = [k \in DOMAIN s |-> AllFields[s[k]]]
        /\ recs = <<>> /\ extra \in {<<>>, <<0>>}
Next == /\ Len(recs) < MaxRec
        /\ \E fl \in {32, 42} : \E c \in AnyCells(fields) :
             /\ (Len(fields) > 1 /\ Level = 1) => (Len(recs) = 0 \/ fl = 42 \/ c = CHOOSE x \in AnyCells(fields) : TRUE)
             /\ recs' = Append(recs, <<fl, c>>)
        /\ UNCHANGED <<fields, extra>>
        /\ PrintT("@@" \o ToJson(Emission(fields, recs', extra)))
Spec == Init /\ [][Next]_<<fields, recs, extra>>

\* Reading back what was written.
RoundTrip == FieldsOf(Bytes) = fields /\ RecordsOf(Bytes) = recs
Faithful == ReadDbf(Bytes, <<>>) = PackOf(fields, recs, DOMAIN fields)
\* Records marked as deleted leave no trace.
DeletedGone == LET live == SelectSeq(recs, LAMBDA r : r[1] = 32)
               IN ReadDbf(Bytes, <<>>) = ReadDbf(Encode(fields, live, extra), <<>>)
\* Records again and again.
Tiles == LET e == PackOf(fields, recs, DOMAIN fields)
             n == Len(SelectSeq(recs, LAMBDA r : r[1] = 32))
         IN \A t \in 0..Len(recs) :
              LET big == recs \o recs \o SubSeq(recs, 1, t)
              IN Recorded(PackOf(fields, big, DOMAIN fields).data, n)
                 = Long(e.data, 2 * n + Len(SelectSeq(SubSeq(recs, 1, t), LAMBDA r : r[1] = 32)))
=============================================================================

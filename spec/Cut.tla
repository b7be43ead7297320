-------------------------------- MODULE Cut ---------------------------------
(***************************************************************************)
(* Files cut short: a writer appends bytes and is stopped anywhere.  What  *)
(* is left either is refused or reads as the complete file would; it never *)
(* reads as other data.  Refused is <<"refused">>.                         *)
(***************************************************************************)
EXTENDS Dbf, Ole

Refused == <<"refused">>
\* A dbf file tells how many records it has.
RecordLen(b) == 1 + Sum([i \in DOMAIN FieldsOf(b) |-> FieldsOf(b)[i].size])
DbfNeeds(b) == HeaderLen(b) + LE(SubSeq(b, 5, 8)) * RecordLen(b)
DbfCut(b, n) == IF n < 32 \/ n < DbfNeeds(b) THEN Refused ELSE <<"ok", ReadDbf(SubSeq(b, 1, n), <<>>)>>

\* A compound file needs its tables, its directory and the stream.
SetOf(s) == {s[i] : i \in DOMAIN s}
InMini(e) == ESize(e) < CutOff
OleNeeds(L, d) ==
  SetOf(L.msat) \cup SetOf(L.msatx) \cup SetOf(ChainFrom(L.sat, L.dirfirst))
  \cup IF InMini(Entry(L, d))
       THEN SetOf(ChainFrom(L.sat, EFirst(Entry(L, 0)))) \cup SetOf(ChainFrom(L.sat, L.ssatfirst))
       ELSE SetOf(ChainFrom(L.sat, EFirst(Entry(L, d))))
\* k whole sectors are left
OleCut(L, d, k) == IF \E s \in OleNeeds(L, d) : s >= k THEN Refused ELSE <<"ok", ReadStream(L, d)>>

\* What may be seen of a file cut short.  must: nothing it needs is missing.
CutOK(full, o, must) == o = full \/ (o.st = "err" /\ ~must)
=============================================================================

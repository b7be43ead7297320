-------------------------------- MODULE Tile --------------------------------
(***************************************************************************)
(* Long columns.  Rows are read one by one, so what a source gives whose   *)
(* rows are a block of rows again and again is the column of the block,    *)
(* again and again.  A long column is recorded as <<number, first values,  *)
(* count, regular>>: regular when the values are the first ones repeated.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Repeats(s, first) == first # <<>> /\ \A i \in DOMAIN s : s[i] = first[((i - 1) % Len(first)) + 1]
\* the columns <<number, values>> of a block as long columns of n values
Long(cols, n) == [k \in DOMAIN cols |-> <<cols[k][1], cols[k][2], n, TRUE>>]
\* columns as recorded by the harness, for blocks of len values
Recorded(cols, len) ==
  [k \in DOMAIN cols |->
     LET first == SubSeq(cols[k][2], 1, len)
     IN <<cols[k][1], first, Len(cols[k][2]), Repeats(cols[k][2], first)>>]
Times(s, n) == [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]
=============================================================================

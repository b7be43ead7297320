-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as sequences of code points (Python text) or bytes, and the small  *)
(* vocabulary of text operations the channelpack specification needs.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Ident(n) == [i \in 1..n |-> i]

\* The elements of s at the positions in set S, in order.
Pick(s, S) == LET ix == SetToSortSeq(S, <) IN [j \in 1..Len(ix) |-> s[ix[j]]]

CharIn(c, lo, hi) == lo <= c /\ c <= hi
IsDigit(c)  == CharIn(c, 48, 57)
IsUpper(c)  == CharIn(c, 65, 90)
IsLower(c)  == CharIn(c, 97, 122)
IsAlpha(c)  == IsUpper(c) \/ IsLower(c)
\* \w restricted to what the drivers generate: ASCII plus Latin-1 letters and
\* letters of the BMP above it (the drivers use no other non-ASCII symbols).
IsWord(c)   == IsAlpha(c) \/ IsDigit(c) \/ c = 95 \/ c = 170 \/ c = 181 \/ c = 186
               \/ (CharIn(c, 192, 591) /\ c # 215 /\ c # 247)
\* White space as str.strip() and str.split() see it (ASCII part and NBSP).
IsSpace(c)  == CharIn(c, 9, 13) \/ CharIn(c, 28, 32) \/ c = 133 \/ c = 160
\* string.whitespace
IsAsciiSpace(c) == CharIn(c, 9, 13) \/ c = 32
Lower(c)    == IF IsUpper(c) THEN c + 32 ELSE c
Upper(c)    == IF IsLower(c) THEN c - 32 ELSE c

\* Strip from both ends the characters for which P holds.
Strip(s, P(_)) ==
  LET keep == {i \in DOMAIN s : ~P(s[i])}
  IN IF keep = {} THEN <<>> ELSE SubSeq(s, Min(keep), Max(keep))
LStrip(s, P(_)) ==
  LET keep == {i \in DOMAIN s : ~P(s[i])}
  IN IF keep = {} THEN <<>> ELSE SubSeq(s, Min(keep), Len(s))

\* Maximal runs of positions for which m is TRUE: <<first, last>> pairs.
RunsOf(m) ==
  LET n == Len(m)
      S == {i \in 1..n : m[i] /\ (i = 1 \/ ~m[i-1])}
      E == {i \in 1..n : m[i] /\ (i = n \/ ~m[i+1])}
      ss == SetToSortSeq(S, <)
      es == SetToSortSeq(E, <)
  IN [j \in 1..Len(ss) |-> <<ss[j], es[j]>>]

\* The maximal pieces of s of characters for which P holds.
Words(s, P(_)) ==
  LET rs == RunsOf([i \in 1..Len(s) |-> P(s[i])])
  IN [j \in 1..Len(rs) |-> SubSeq(s, rs[j][1], rs[j][2])]

\* str.split() without argument.
SplitSpace(s) == Words(s, LAMBDA c : ~IsSpace(c))

OccursAt(s, d, i) == /\ i >= 1 /\ i + Len(d) - 1 <= Len(s)
                     /\ \A k \in 1..Len(d) : s[i+k-1] = d[k]

\* Left to right, non overlapping occurrences of d (non empty) in s.
Occurrences(s, d) ==
  LET L == Len(d)
      cand == SetToSortSeq({i \in 1..Len(s) : s[i] = d[1] /\ OccursAt(s, d, i)}, <)
  IN IF L = 1 THEN cand
     ELSE FoldLeft(LAMBDA acc, i : IF acc = <<>> \/ i >= acc[Len(acc)] + L
                                   THEN Append(acc, i) ELSE acc, <<>>, cand)

\* str.split(d)
SplitOn(s, d) ==
  LET o == Occurrences(s, d)
      n == Len(o)
  IN [j \in 1..(n + 1) |-> SubSeq(s, IF j = 1 THEN 1 ELSE o[j-1] + Len(d),
                                     IF j = n + 1 THEN Len(s) ELSE o[j] - 1)]

\* str.replace(a, b) for single characters.
Replace(s, a, b) == [i \in 1..Len(s) |-> IF s[i] = a THEN b ELSE s[i]]
RemoveChar(s, a) == SelectSeq(s, LAMBDA c : c # a)

\* Digits of a natural number.
RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>>
                ELSE Append(NatDigits(n \div 10), 48 + (n % 10))
IntText(n) == IF n < 0 THEN <<45>> \o NatDigits(-n) ELSE NatDigits(n)
\* Value of a digit string (at most 9 digits).
NatVal(s) == FoldLeft(LAMBDA acc, c : 10 * acc + (c - 48), 0, s)
AllDigits(s) == Len(s) > 0 /\ \A i \in DOMAIN s : IsDigit(s[i])
=============================================================================

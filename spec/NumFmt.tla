------------------------------- MODULE NumFmt -------------------------------
(* Which number formats are date formats. *)
EXTENDS Text

DateChars == {121, 109, 100, 104, 115, 89, 77, 68, 72, 83}         \* ymdhs
NumChars == {48, 35, 63}                                           \* 0 # ?
SkipChars == {36, 45, 43, 47, 40, 41, 58, 32}                      \* $-+/():
Escapes == {92, 95, 42}                                            \* \ _ *

\* The code without quoted text, escaped characters and the characters that
\* say nothing.
Bare(code) ==
  FoldLeft(LAMBDA acc, c :
     CASE acc[1] = "quote" -> <<IF c = 34 THEN "plain" ELSE "quote", acc[2]>>
       [] acc[1] = "escape" -> <<"plain", acc[2]>>
       [] c = 34 -> <<"quote", acc[2]>>
       [] c \in Escapes -> <<"escape", acc[2]>>
       [] c \in SkipChars -> acc
       [] OTHER -> <<"plain", Append(acc[2], c)>>,
     <<"plain", <<>>>>, code)[2]

\* Without [bracketed parts].
RECURSIVE Unbracket(_)
Unbracket(s) ==
  LET open == {i \in DOMAIN s : s[i] = 91 /\ \E j \in DOMAIN s : j > i /\ s[j] = 93}
  IN IF open = {} THEN s
     ELSE LET a == Min(open)
              b == Min({j \in DOMAIN s : j > a /\ s[j] = 93})
          IN SubSeq(s, 1, a - 1) \o Unbracket(SubSeq(s, b + 1, Len(s)))

T(s) == s
\* 0.00E00 and ##0.0E0 (the + is gone), General, @
\* (none of them has a date character or they count as numbers anyway)
IsDateCode(code) ==
  LET s == Unbracket(Bare(code))
      d == Cardinality({i \in DOMAIN s : s[i] \in DateChars})
      n == Cardinality({i \in DOMAIN s : s[i] \in NumChars})
  IN d > n

BuiltinDates == (14..22) \cup (27..36) \cup (45..47) \cup (50..58) \cup (71..81)

\* fmts: sequence of <<id, code>>, a later one replacing an earlier one.
IsDateFmt(id, fmts) ==
  LET S == {i \in DOMAIN fmts : fmts[i][1] = id}
  IN IF S # {} THEN IsDateCode(fmts[Max(S)][2]) ELSE id \in BuiltinDates
=============================================================================

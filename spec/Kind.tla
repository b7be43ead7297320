-------------------------------- MODULE Kind --------------------------------
(***************************************************************************)
(* What kind of file a workbook is, told from its content alone.           *)
(*                                                                         *)
(* A file is [form |-> "zip", members] (member names as code points), or   *)
(* [form |-> "ole", streams], a compound document with streams             *)
(* [name, depth, head, enc, body, tag], or [form |-> "raw", stream], one   *)
(* stream by itself.  head is the first bytes of a stream; body, the       *)
(* version of the records that follow; enc, whether a FILEPASS record is   *)
(* among them; tag, the number in its only cell.  The outcome is Refused,  *)
(* <<"read", version, tag>> or Unsaid.                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

No == <<"refused">>
Unsaid == <<"unsaid">>
At2(b, i) == b[i] + 256 * b[i + 1]
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
FoldName(s) == [i \in DOMAIN s |-> Lower(s[i])]
FoldPath(s) == [i \in DOMAIN s |-> IF s[i] = 92 THEN 47 ELSE Lower(s[i])]
XlWorkbookXml == <<120, 108, 47, 119, 111, 114, 107, 98, 111, 111, 107, 46, 120, 109, 108>>
WorkbookName == <<119, 111, 114, 107, 98, 111, 111, 107>>
BookName == <<98, 111, 111, 107>>

\* --- the first record of a stream -----------------------------------------
BofCodes == {9, 521, 1033, 2057}
\* The version told by a BOF record at the start of b; 0 is none.
Version(b) ==
  IF Len(b) < 4 \/ At2(b, 1) \notin BofCodes THEN 0
  ELSE LET len == At2(b, 3)
           d == SubSeq(b, 5, Len(b))
           year == IF len >= 8 THEN At2(d, 7) ELSE 0
           build == IF len >= 6 THEN At2(d, 5) ELSE 0
           dated == IF year < 1994 \/ build \in {2412, 3218, 3321} THEN 50 ELSE 70
           plain == CASE At2(b, 1) = 9 -> 21 [] At2(b, 1) = 521 -> 30 [] At2(b, 1) = 1033 -> 40
                      [] OTHER -> CASE At2(d, 1) = 1536 -> 80 [] At2(d, 1) = 1280 -> dated
                                    [] At2(d, 1) \in {0, 7, 512} -> 21 [] At2(d, 1) = 768 -> 30 [] At2(d, 1) = 1024 -> 40
                                    [] OTHER -> 0
       IN IF len < 4 \/ len > 20 \/ Len(d) < len THEN 0
          ELSE IF plain = 40 /\ At2(d, 3) = 256 THEN 45 ELSE plain
Substream(b) == At2(b, 7)
\* Excel 5 and later begin with the globals, the ones before with the sheet.
Starts(b) == CASE Version(b) = 0 -> FALSE [] Version(b) = 45 -> Substream(b) = 256
               [] Version(b) >= 50 -> Substream(b) = 5 [] OTHER -> Substream(b) = 16
Stream(s) ==
  IF Version(s.head) \in 1..49 /\ Substream(s.head) = 5 THEN Unsaid
  ELSE IF ~Starts(s.head) THEN No
  ELSE IF Version(s.head) # s.body THEN Unsaid
  ELSE IF s.enc THEN No ELSE <<"read", s.body, s.tag>>

\* --- the containers ---------------------------------------------------------
Named(f, n) == {i \in DOMAIN f.streams : f.streams[i].depth = 0 /\ FoldName(f.streams[i].name) = n}
Outcome(f) ==
  CASE f.form = "zip" -> IF \E i \in DOMAIN f.members : FoldPath(f.members[i]) = XlWorkbookXml THEN <<"read", 0, f.tag>> ELSE No
    [] f.form = "ole" -> IF Named(f, WorkbookName) # {} THEN Stream(f.streams[CHOOSE i \in Named(f, WorkbookName) : TRUE])
                         ELSE IF Named(f, BookName) # {} THEN Stream(f.streams[CHOOSE i \in Named(f, BookName) : TRUE])
                         ELSE No
    [] OTHER -> Stream(f.stream)

\* o: what is seen, <<"read", version, tag>>, <<"refused">> or else.  The
\* version is not asked for where o has none (-1).
Agrees(f, o) == \/ Outcome(f) = Unsaid
                \/ o = Outcome(f)
                \/ Outcome(f)[1] = "read" /\ Len(o) = 3 /\ o[2] = -1 /\ o[3] = Outcome(f)[3]
=============================================================================

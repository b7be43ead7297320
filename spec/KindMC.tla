------------------------------- MODULE KindMC -------------------------------
(***************************************************************************)
(* All files of a small scope, put together step by step: members added to *)
(* a zip file, streams to a compound document, the fields of a BOF record  *)
(* chosen.  Every one reached is printed for replay with its outcome.      *)
(***************************************************************************)
EXTENDS Kind, TLC, Json

CONSTANTS Profile, MaxStreams
VARIABLE f

B2(n) == <<n % 256, n \div 256>>
\* a BOF record of n bytes of data
Bof(op, n, v, t, build, year) == B2(op) \o B2(n) \o SubSeq(B2(v) \o B2(t) \o B2(build) \o B2(year) \o [i \in 1..20 |-> 0], 1, n)
Bodies == {21, 30, 40, 45, 50, 70, 80}
Native(v) == CASE v = 21 -> Bof(9, 4, 512, 16, 0, 0) [] v = 30 -> Bof(521, 6, 768, 16, 0, 0) [] v = 40 -> Bof(1033, 6, 1024, 16, 0, 0)
               [] v = 45 -> Bof(1033, 6, 1024, 256, 0, 0) [] v = 50 -> Bof(2057, 8, 1280, 5, 3000, 1993)
               [] v = 70 -> Bof(2057, 8, 1280, 5, 3000, 1995) [] OTHER -> Bof(2057, 16, 1536, 5, 8106, 1997)
S(name, depth, head, enc, body, tag) == [name |-> name, depth |-> depth, head |-> head, enc |-> enc, body |-> body, tag |-> tag]

\* --- zip ---------------------------------------------------------------
MemberNames == { <<120, 108, 47, 119, 111, 114, 107, 98, 111, 111, 107, 46, 120, 109, 108>>,       \* xl/workbook.xml
                 <<88, 76, 92, 87, 111, 114, 107, 98, 111, 111, 107, 46, 120, 109, 108>>,          \* XL\Workbook.xml
                 <<120, 108, 47, 119, 111, 114, 107, 98, 111, 111, 107, 46, 98, 105, 110>>,        \* xl/workbook.bin
                 <<99, 111, 110, 116, 101, 110, 116, 46, 120, 109, 108>>,                          \* content.xml
                 <<119, 111, 114, 107, 98, 111, 111, 107, 46, 120, 109, 108>>,                     \* workbook.xml
                 <<119, 111, 114, 100, 47, 100, 111, 99, 117, 109, 101, 110, 116, 46, 120, 109, 108>>, \* word/document.xml
                 <<97, 47, 120, 108, 47, 119, 111, 114, 107, 98, 111, 111, 107, 46, 120, 109, 108>> }  \* a/xl/workbook.xml
Has(g, m) == \E i \in DOMAIN g.members : FoldPath(g.members[i]) = FoldPath(m)
ZipStep == \E m \in MemberNames : /\ ~Has(f, m)
                                  /\ \/ f' = [f EXCEPT !.members = Append(@, m)]
                                     \/ FoldPath(m) = XlWorkbookXml /\ f' = [f EXCEPT !.members = <<m>> \o @]

\* --- compound documents --------------------------------------------------
StreamNames == { <<87, 111, 114, 107, 98, 111, 111, 107>>, <<87, 79, 82, 75, 66, 79, 79, 75>>, <<66, 111, 111, 107>>, <<98, 79, 79, 107>>,
                 <<67, 116, 108, 115>>,                                                            \* Ctls
                 <<69, 110, 99, 114, 121, 112, 116, 101, 100, 80, 97, 99, 107, 97, 103, 101>> }    \* EncryptedPackage
Taken(g, n, d) == \E i \in DOMAIN g.streams : g.streams[i].depth = d /\ FoldName(g.streams[i].name) = FoldName(n)
OleStep == /\ Len(f.streams) < MaxStreams
           /\ \E n \in StreamNames, d \in {0, 1}, v \in {70, 80}, e \in {TRUE, FALSE} :
                ~Taken(f, n, d) /\ f' = [f EXCEPT !.streams = Append(@, S(n, d, Native(v), e, v, 100 + Len(@)))]

\* --- streams by themselves -----------------------------------------------
Heads == {Bof(op, n, v, t, b, y) : op \in {9, 521, 1033, 2057}, n \in {2, 4, 6, 8, 16, 20, 21}, v \in {0, 7, 512, 768, 1024, 1280, 1536, 1792},
                                   t \in {5, 6, 16, 32, 64, 256}, b \in {3000}, y \in {1995}}
         \cup {Bof(2057, n, 1280, 5, b, y) : n \in {8, 16}, b \in {0, 2411, 2412, 3218, 3321, 4096}, y \in {0, 1992, 1993, 1994, 1996, 1997}}
         \cup {Bof(op, n, 1536, 5, 8106, 1997) : op \in {0, 8, 10, 777, 1545, 2313, 4105, 65535}, n \in {4, 8, 16}}
         \cup UNION {{SubSeq(Native(v), 1, k) : k \in 0..Len(Native(v))} : v \in Bodies}
         \cup {<<80, 75, 5, 6>>, <<80, 75, 3>>, <<208, 207, 17, 224>>, <<60, 104, 116, 109, 108, 62>>, <<97, 44, 98>>, <<239, 187, 191, 60>>}
\* the records that follow are of the version told, where one is told
BodyFor(h) == IF Version(h) = 0 THEN 80 ELSE Version(h)
RawStep == /\ f.stream.tag = 0
           /\ \E h \in Heads, e \in {TRUE, FALSE} : f' = [f EXCEPT !.stream = S(<<>>, 0, h, e, BodyFor(h), 100)]

Blank == CASE Profile = "zip" -> [form |-> "zip", members |-> <<>>, tag |-> 100]
           [] Profile = "ole" -> [form |-> "ole", streams |-> <<>>]
           [] OTHER -> [form |-> "raw", stream |-> S(<<>>, 0, <<>>, FALSE, 80, 0)]
Init == f = Blank
Next == /\ CASE Profile = "zip" -> ZipStep [] Profile = "ole" -> OleStep [] OTHER -> RawStep
        /\ Outcome(f') = Unsaid \/ PrintT("@@" \o ToJson([f |-> f', want |-> Outcome(f')]))
Spec == Init /\ [][Next]_f

\* --- the guarantees --------------------------------------------------------
\* What is not a workbook never becomes one by what lies beside it, and the
\* stream that is read stays the same.
Stays == [][Outcome(f)[1] = "read" =>
              \/ Outcome(f') = Outcome(f)
              \/ Profile = "ole" /\ Named(f, WorkbookName) = {} /\ Named(f', WorkbookName) # {}]_f
OnlyNamed == f.form # "ole" \/ Outcome(f)[1] # "read"
             \/ \E i \in DOMAIN f.streams : /\ f.streams[i].tag = Outcome(f)[3] /\ f.streams[i].depth = 0
                                            /\ FoldName(f.streams[i].name) \in {WorkbookName, BookName}
                                            /\ Named(f, WorkbookName) = {} \/ i \in Named(f, WorkbookName)
NoSecret == CASE f.form = "raw" -> f.stream.enc => Outcome(f)[1] # "read"
              [] f.form = "ole" -> \A i \in DOMAIN f.streams : f.streams[i].enc => Outcome(f) # <<"read", f.streams[i].body, f.streams[i].tag>>
              [] OTHER -> TRUE
Total == Outcome(f) = No \/ Outcome(f) = Unsaid \/ (Outcome(f)[1] = "read" /\ Outcome(f)[2] \in {0} \cup Bodies)
EachVersion == \A v \in Bodies : Version(Native(v)) = v /\ Starts(Native(v))
=============================================================================

------------------------------- MODULE BiffMC -------------------------------
(***************************************************************************)
(* A writer of shared string tables.  It writes the strings unit by unit   *)
(* and may go on in a new record (MaxSplit times) wherever the format      *)
(* allows, characters there being narrow or wide as they fit.  Profile     *)
(* "records" instead writes cells as records of all kinds, in any order.   *)
(***************************************************************************)
EXTENDS Biff, Json

CONSTANTS Profile, MaxSplit
VARIABLES tab, chunks, todo, wide, splits

\* A string: [u, wide, rt, pho]
Str(us, w, rt, pho) == [u |-> us, wide |-> w, rt |-> rt, pho |-> pho]
N == -1
Tables ==
  { << Str(<<97, 229>>, FALSE, N, N), Str(<<26085, 97>>, TRUE, N, N) >>,
    << Str(<<>>, FALSE, N, N), Str(<<55357, 56832, 98>>, TRUE, N, N), Str(<<>>, TRUE, N, N) >>,
    << Str(<<97, 98>>, TRUE, 2, N), Str(<<99>>, FALSE, N, 3) >>,
    << Str(<<120>>, FALSE, 1, 2), Str(<<121>>, FALSE, 0, 0), Str(<<122>>, FALSE, N, N) >> }

Le2(n) == <<n % 256, n \div 256>>
Le4(n) == Le2(n % 65536) \o <<0, 0>>
\* items to write: <<"head", bytes, wide>>, <<"char", unit>>, <<"raw", bytes>>
ItemsOf(s) ==
  << <<"head", Le2(Len(s.u)) \o <<(IF s.wide THEN 1 ELSE 0) + (IF s.rt >= 0 THEN 8 ELSE 0) + (IF s.pho >= 0 THEN 4 ELSE 0)>>
              \o (IF s.rt >= 0 THEN Le2(s.rt) ELSE <<>>) \o (IF s.pho >= 0 THEN Le4(s.pho) ELSE <<>>), s.wide>> >>
  \o [i \in DOMAIN s.u |-> <<"char", s.u[i], TRUE>>]
  \o (IF s.rt > 0 THEN [i \in 1..s.rt |-> <<"raw", <<i, 0, 5, 0>>, TRUE>>] ELSE <<>>)
  \o (IF s.pho > 0 THEN [i \in 1..s.pho |-> <<"raw", <<200 + i>>, TRUE>>] ELSE <<>>)
Items(t) == FlattenSeq([i \in DOMAIN t |-> ItemsOf(t[i])])
Texts(t) == [i \in DOMAIN t |-> Chars(t[i].u)]

CharBytes(c, w) == IF w THEN Le2(c) ELSE <<c>>
\* characters left of the string being written
RECURSIVE Rest(_)
Rest(it) == IF it = <<>> \/ it[1][1] # "char" THEN {} ELSE {it[1][2]} \cup Rest(Tail(it))

AddTo(ch, b) == [ch EXCEPT ![Len(ch)] = @ \o b]
AsBook(ch, n) == [mode |-> 0, fmts |-> <<>>, xfs |-> <<0>>, sst |-> ch,
                  sheets |-> << <<<<83>>, 0, [i \in 1..n |-> <<"LABELSST", i - 1, 0, 0, i - 1>>]>> >>]
All == [sheet |-> <<"i", 0>>, header |-> <<"F">>, start |-> <<>>, stop |-> <<>>, usecols |-> <<>>]
Line(b) == [files |-> <<[form |-> "xls", x |-> b, ole |-> <<>>]>>, calls |-> <<[file |-> 1, a |-> All]>>,
            e |-> <<SheetPack(BiffBook(b), All)>>]
Emit(b) == PrintT("@@" \o ToJson(Line(b)))

Write ==
  /\ todo # <<>>
  /\ LET it == todo[1] IN
     \E new \in BOOLEAN :
       /\ new => splits < MaxSplit /\ ~(Len(chunks) = 1 /\ Len(chunks[1]) = 8)
                 /\ (it[1] # "char" => Len(chunks[Len(chunks)]) > 0)
       /\ splits' = splits + (IF new THEN 1 ELSE 0)
       /\ \/ /\ it[1] = "char"
             /\ \E w \in BOOLEAN :
                  /\ ~new => w = wide
                  /\ ~w => \A c \in Rest(todo) : c < 256
                  /\ wide' = w
                  /\ chunks' = IF new THEN Append(chunks, <<IF w THEN 1 ELSE 0>> \o CharBytes(it[2], w))
                               ELSE AddTo(chunks, CharBytes(it[2], w))
          \/ /\ it[1] # "char"
             /\ wide' = IF it[1] = "head" THEN it[3] ELSE wide
             /\ chunks' = IF new THEN Append(chunks, it[2]) ELSE AddTo(chunks, it[2])
  /\ todo' = Tail(todo) /\ UNCHANGED tab
  /\ todo' = <<>> => Emit(AsBook(chunks', Len(tab)))

---------------------------------------------------------------------------
RKs == {<<"i", 4 * v + 2 + s>> : v \in {0, 1, -1, 100, -536870912, 536870911, 12345}, s \in {0, 1}}
       \cup {<<"f", <<"n", FALSE, <<49>>, 0>>, s>> : s \in BOOLEAN}
       \cup {<<"f", <<"n", TRUE, <<53>>, -1>>, s>> : s \in BOOLEAN}
CellKinds(r, c) ==
  {<< <<"RK", r, c, xf, v>> >> : xf \in {0}, v \in RKs}
  \cup {<< <<"RK", r, c, 1, <<"i", 4 * 36526 + 2>>>> >>, << <<"NUMBER", r, c, 1, <<"n", FALSE, <<54, 53, 53>>, -1>>>> >>,
        << <<"NUMBER", r, c, 0, <<"n", TRUE, <<49, 53>>, -1>>>> >>,
        << <<"MULRK", r, c, <<<<0, <<"i", 30>>>>, <<1, <<"i", 30>>>>>>>> >>,
        << <<"LABELSST", r, c, 0, 0>> >>, << <<"LABEL", r, c, 0, <<1, 0, 0, 65>>>> >>, << <<"LABEL", r, c, 0, <<1, 0, 1, 229, 101>>>> >>,
        << <<"RSTRING", r, c, 0, <<2, 0, 0, 65, 66>>>> >>,
        << <<"BOOLERR", r, c, 0, 1, 0>> >>, << <<"BOOLERR", r, c, 0, 42, 1>> >>, << <<"BLANK", r, c, 1>> >>,
        << <<"FORMULA", r, c, 0, <<"n", <<"n", FALSE, <<55>>, 0>>>>, 0>> >>,
        << <<"FORMULA", r, c, 1, <<"n", <<"n", FALSE, <<55, 55>>, 0>>>>, 0>> >>,
        << <<"FORMULA", r, c, 0, <<"s">>, 0>>, <<"STRING", <<<<2, 0, 0, 65>>, <<1, 66, 1>>>>>> >>,
        << <<"FORMULA", r, c, 0, <<"s">>, 0>>, <<"SHRFMLA">>, <<"STRING", <<<<1, 0, 1, 229, 101>>>>>> >>,
        << <<"FORMULA", r, c, 0, <<"b", 1>>, 0>> >>, << <<"FORMULA", r, c, 0, <<"e", 7>>, 0>> >>, << <<"FORMULA", r, c, 0, <<"empty">>, 0>> >>}
Places == {<<0, 0>>, <<0, 2>>, <<1, 0>>}
RecordBook(rs) == [mode |-> 0, fmts |-> <<>>, xfs |-> <<0, 14>>, sst |-> << <<1, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 110, 111>> >>,
                   sheets |-> << <<<<83>>, 0, rs \o <<<<"NUMBER", 2, 3, 0, <<"n", FALSE, <<57>>, 0>>>>>>>> >>]
\* tab: places used, chunks: the records
AddRecord ==
  /\ Len(tab) < MaxSplit
  /\ \E p \in Places : \E k \in CellKinds(p[1], p[2]) :
       /\ \A i \in DOMAIN tab : tab[i] # p
       /\ tab' = Append(tab, p)
       /\ chunks' = chunks \o k
       /\ Emit(RecordBook(chunks'))
  /\ UNCHANGED <<todo, wide, splits>>

Init == IF Profile = "strings"
        THEN /\ tab \in Tables /\ todo = Items(tab) /\ wide = FALSE /\ splits = 0
             /\ chunks = << Le4(Len(tab)) \o Le4(Len(tab)) >>
        ELSE tab = <<>> /\ chunks = <<>> /\ todo = <<>> /\ wide = FALSE /\ splits = 0
Next == IF Profile = "strings" THEN Write ELSE AddRecord
Spec == Init /\ [][Next]_<<tab, chunks, todo, wide, splits>>

\* However it was split, the table reads as it was.
Survives == Profile = "strings" /\ todo = <<>> => SharedStrings(chunks) = Texts(tab)
\* The order of records does not matter.
Orderless == Profile = "records" =>
  LET a == BiffBook(RecordBook(chunks)).sheets[1]
  IN \A i \in DOMAIN a.cells : \A j \in DOMAIN a.cells : i # j => <<a.cells[i][1], a.cells[i][2]>> # <<a.cells[j][1], a.cells[j][2]>>
=============================================================================

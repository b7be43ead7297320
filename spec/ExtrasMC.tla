------------------------------ MODULE ExtrasMC ------------------------------
(***************************************************************************)
(* Small books with everything but cells added.                            *)
(*  names: every formula of one operation (Bound 2: two) as a defined      *)
(*         name, and a second name that uses it                            *)
(*  chain: names referring to each other, up to Bound                      *)
(*  places: up to Bound things of every kind at every place of a sheet     *)
(***************************************************************************)
EXTENDS Extras, Json

CONSTANTS Profile, Bound
VARIABLES names, recs, depth

Leaf(t) == <<"leaf", t>>
Leaves == {Leaf(t) : t \in {<<"int", 0>>, <<"int", 2>>, <<"num", "-2.5">>, <<"num", "1e308">>, <<"str", "">>, <<"str", "a">>,
                            <<"str", "3">>, <<"bool", 1>>, <<"err", 7>>, <<"miss">>, <<"ref", 1, 1, TRUE>>,
                            <<"area", 0, 0, FALSE>>, <<"ref3", 0, 0, 1, 1, FALSE>>, <<"area3", 0, 0, 0, 0, FALSE>>,
                            <<"referr">>, <<"ref3err", 0>>, <<"name", 1>>, <<"name", 2>>,
                            <<"func", "PI", 0>>}}
Few == {Leaf(t) : t \in {<<"int", 0>>, <<"str", "a">>, <<"ref3", 0, 0, 1, 1, FALSE>>, <<"name", 2>>}}
One == {<<o>> : o \in UnaryOps \cup {"sum1"}} \cup {<<"func", f, 1>> : f \in {"SIN", "SUM", "INDIRECT", "IF", "CALL"}}
Two == {<<o>> : o \in BinaryOps} \cup {<<"func", f, 2>> : f \in {"MOD", "OFFSET", "SUM"}}
Seconds == {<< <<"name", 1>> >>, << <<"int", 1>>, <<"name", 1>>, <<"div">> >>, << <<"int", 1>> >>}

Base == << <<"DIM", 0, 2, 0, 2, 0>>, <<"NUMBER", 0, 0, 0, <<"n", FALSE, <<53>>, 0>>>>,
           <<"FORMULA", 1, 0, 0, <<"s">>, 0>>, <<"STRING", << <<2, 0, 0, 65, 66>> >> >>,
           <<"LABEL", 1, 1, 0, <<1, 0, 0, 90>>>>, <<"MERGED", << <<2, 3, 0, 1>> >> >>,
           <<"RK", 3, 0, 0, <<"i", 30>>>> >>
Things == {"merged", "hlink", "comments", "objects", "chart", "condfmt", "labels", "window", "window8", "scale", "pane", "selection", "colinfo",
           "defcolwidth", "stdwidth", "gcw", "rowheight", "row", "breaks", "header", "calc", "index", "print", "validation",
           "filter", "protect", "feature", "pivot", "view", "bitmap", "future"}
Insert(rs, i, x) == SubSeq(rs, 1, i) \o <<x>> \o SubSeq(rs, i + 1, Len(rs))

Book(ns, rs) == [mode |-> 0, fmts |-> <<>>, xfs |-> <<0>>, sst |-> <<>>, names |-> ns, links |-> 1, sheets |-> << <<<<83>>, 0, rs>> >>]
AName(i, toks) == [n |-> <<110, 64 + i>>, sheet |-> 0, toks |-> toks]
All == [sheet |-> <<"i", 0>>, header |-> <<"F">>, start |-> <<>>, stop |-> <<>>, usecols |-> <<>>]
Emit(b) == PrintT("@@" \o ToJson([files |-> <<[form |-> "xls", x |-> b, ole |-> <<>>]>>, calls |-> <<[file |-> 1, a |-> All]>>,
                                  e |-> <<SheetPack(BiffBook(b), All)>>]))

Put(e) == \E s \in Seconds : /\ names' = <<AName(1, Polish(e)), AName(2, s)>>
                            /\ Emit(Book(names', recs'))
AddName ==
  /\ depth = 0 /\ depth' = 1 /\ recs' = recs
  /\ \/ \E x \in Leaves : Put(x)
     \/ \E x \in Leaves, o \in One : Put(<<"op", o, <<x>>>>)
     \/ \E x, y \in Leaves, o \in Two : Put(<<"op", o, <<x, y>>>>)
     \/ /\ Bound > 1
        /\ \E x, y, z \in Few, o, p \in Two : \/ Put(<<"op", o, <<<<"op", p, <<x, y>>>>, z>>>>)
                                            \/ Put(<<"op", o, <<x, <<"op", p, <<y, z>>>>>>>>)
     \/ /\ Bound > 1
        /\ \E x, y \in Few, o \in One, p \in Two : Put(<<"op", o, <<<<"op", p, <<x, y>>>>>>>>)
\* A chain is a function from names to names.
Targets(n) == {[i \in 1..n |-> (i % n) + 1], [i \in 1..n |-> IF i = n THEN 0 ELSE i + 1], [i \in 1..n |-> i - 1],
               [i \in 1..n |-> i], [i \in 1..n |-> IF i % 2 = 0 THEN n - (i \div 2) ELSE i - 1]}
ChainOf(f) == [i \in DOMAIN f |->
  AName(i, IF f[i] = 0 THEN << <<"ref3", 0, 0, 0, 0, FALSE>> >> ELSE << <<"name", f[i]>>, <<"name", f[i]>>, <<"add">> >>)]
AddChain ==
  /\ depth < Bound /\ depth' = depth + 1 /\ recs' = recs
  /\ \E f \in Targets(depth') : names' = ChainOf(f) /\ Emit(Book(names', recs'))
Add ==
  /\ depth < Bound /\ depth' = depth + 1 /\ names' = names
  /\ \E i \in 0..Len(recs), k \in Things :
       /\ recs' = Insert(recs, i, <<"X", k, <<>>>>)
       /\ ExtrasOK(Book(names, recs'))
       /\ Emit(Book(names', recs'))

Init == names = <<>> /\ recs = Base /\ depth = 0
Next == IF Profile = "names" THEN AddName ELSE IF Profile = "chain" THEN AddChain ELSE Add
Spec == Init /\ [][Next]_<<names, recs, depth>>

\* Nothing of it changes the data.
Unmoved == LET b == Book(names, recs) IN ExtrasOK(b) /\ SameData(b)
=============================================================================

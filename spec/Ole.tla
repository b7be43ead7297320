-------------------------------- MODULE Ole ---------------------------------
(***************************************************************************)
(* Compound files: where the parts of a stream are.  A container L has     *)
(*   sat, ssat   next sector (mini sector) of each, -2 at the end          *)
(*   msat        sectors holding the sector allocation table, in order;    *)
(*   msatx       the sectors that hold msat from its 110th entry on        *)
(*   dirfirst, ssatfirst, nssat                                            *)
(*   dir         entries <<name, type, left, right, child, first, size>>   *)
(*   what, mini  content of each sector (mini sector): <<d, k>> is the     *)
(*               k-th part of the stream of directory entry d (0 the root, *)
(*               the mini stream); d = -1 allocation table, -2 directory,  *)
(*               -3 mini allocation table, -4 msatx, -5 unused.            *)
(* Sectors and directory entries count from 0.                             *)
(***************************************************************************)
EXTENDS TextRead

CutOff == 4096
Types == [none |-> 0, storage |-> 1, stream |-> 2, root |-> 5]
Entry(L, d) == L.dir[d + 1]
EName(e) == e[1]
EType(e) == e[2]
EFirst(e) == e[6]
ESize(e) == e[7]
Parts(n, k) == (n + k - 1) \div k

\* The sectors of a chain, in order.
ChainFrom(table, s) ==
  FoldLeft(LAMBDA acc, i : IF acc[2] < 0 THEN acc ELSE <<Append(acc[1], acc[2]), table[acc[2] + 1]>>,
           <<<<>>, s>>, Ident(Len(table)))[1]
Content(what, chain) == [i \in DOMAIN chain |-> what[chain[i] + 1]]
Ordered(d, n) == [k \in 1..n |-> <<d, k>>]

\* Entries of a storage: the search tree below its child.
RECURSIVE InOrder(_, _)
InOrder(L, d) == IF d < 0 THEN <<>>
                 ELSE InOrder(L, Entry(L, d)[3]) \o <<d>> \o InOrder(L, Entry(L, d)[4])
Members(L, storage) == InOrder(L, Entry(L, storage)[5])

\* What reading stream d gives, as the parts found.
ReadStream(L, d) ==
  LET e == Entry(L, d)
  IN IF ESize(e) = 0 THEN <<>>
     ELSE IF EType(e) = Types.root \/ ESize(e) >= CutOff
     THEN Content(L.what, ChainFrom(L.sat, EFirst(e)))
     ELSE Content(L.mini, ChainFrom(L.ssat, EFirst(e)))
PartCount(e) == IF EType(e) = Types.root \/ ESize(e) >= CutOff THEN Parts(ESize(e), 512) ELSE Parts(ESize(e), 64)

\* The stream of this name at the top of the file (names compare without
\* case); streams inside storages are others.
Find(L, name) ==
  LET m == Members(L, 0)
      S == {i \in DOMAIN m : LowerText(EName(Entry(L, m[i]))) = LowerText(name) /\ EType(Entry(L, m[i])) = Types.stream}
  IN IF S = {} THEN -1 ELSE m[Min(S)]
WORKBOOK == <<87, 111, 114, 107, 98, 111, 111, 107>>

\* A legal container.
Legal(L) ==
  /\ Len(L.what) = Len(L.sat) /\ Len(L.mini) = Len(L.ssat)
  /\ [k \in DOMAIN L.msat |-> L.what[L.msat[k] + 1]] = Ordered(-1, Len(L.msat))
  /\ [k \in DOMAIN L.msatx |-> L.what[L.msatx[k] + 1]] = Ordered(-4, Len(L.msatx))
  /\ 128 * Len(L.msat) >= Len(L.sat)
  /\ Len(L.msat) <= 109 + 127 * Len(L.msatx)
  /\ Content(L.what, ChainFrom(L.sat, L.dirfirst)) = Ordered(-2, Parts(Len(L.dir), 4))
  /\ Content(L.what, ChainFrom(L.sat, L.ssatfirst)) = Ordered(-3, L.nssat)
  /\ EType(Entry(L, 0)) = Types.root
  /\ \A d \in 0..(Len(L.dir) - 1) :
       EType(Entry(L, d)) \in {Types.stream, Types.root} => ReadStream(L, d) = Ordered(d, PartCount(Entry(L, d)))
  /\ LET used == {i \in DOMAIN L.what : L.what[i] # <<-5, 0>>}      \* no part twice
     IN Cardinality({L.what[i] : i \in used}) = Cardinality(used)
\* ... that holds a workbook of n bytes
BOOK == <<66, 111, 111, 107>>           \* its name before version 8
Holds(L, n) == LET w == Find(L, WORKBOOK)
                   d == IF w > 0 THEN w ELSE Find(L, BOOK) IN d > 0 /\ ESize(Entry(L, d)) = n /\ ReadStream(L, d) = Ordered(d, PartCount(Entry(L, d)))
=============================================================================

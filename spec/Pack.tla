-------------------------------- MODULE Pack --------------------------------
(***************************************************************************)
(* The ChannelPack: state, operations and results, as pure operators.      *)
(*                                                                         *)
(* A dict is a sequence of <<key, value>> in insertion order.  A channel   *)
(* (column) is [k |-> numpy dtype kind, v |-> sequence of value tokens].   *)
(* Texts are sequences of code points, an optional value is a sequence of  *)
(* length 0 or 1.  A pack is                                               *)
(*   [data, names, mask, mindur, nof, fn, files, prefix]                   *)
(* The parts of a pack are not state: they are a function of the mask.     *)
(***************************************************************************)
EXTENDS Text, TLC

None == <<>>
Some(x) == <<x>>

(******************************** dicts ************************************)
Keys(d)   == {d[i][1] : i \in DOMAIN d}
Has(d, k) == \E i \in DOMAIN d : d[i][1] = k
Get(d, k) == d[CHOOSE i \in DOMAIN d : d[i][1] = k][2]
Put(d, k, x) == IF Has(d, k)
                THEN [i \in DOMAIN d |-> IF d[i][1] = k THEN <<k, x>> ELSE d[i]]
                ELSE Append(d, <<k, x>>)
PutAll(d, e) == FoldLeft(LAMBDA acc, p : Put(acc, p[1], p[2]), d, e)
Del(d, k) == SelectSeq(d, LAMBDA p : p[1] # k)
SameDict(d, e) == /\ Len(d) = Len(e)
                  /\ \A i \in DOMAIN d : Has(e, d[i][1]) /\ Get(e, d[i][1]) = d[i][2]
SortedKeys(d) == SetToSortSeq(Keys(d), <)

(********************************* masks ***********************************)
\* Maximal True runs of a mask as 0-based half open <<start, stop>>.
Runs(m) == LET rs == RunsOf(m) IN [j \in 1..Len(rs) |-> <<rs[j][1] - 1, rs[j][2]>>]
RunLen(r) == r[2] - r[1]
\* Make False the runs whose length is not Ok.
KeepRuns(m, Ok(_)) ==
  LET rs  == Runs(m)
      bad == UNION {(rs[j][1] + 1)..rs[j][2] : j \in {j \in DOMAIN rs : ~Ok(RunLen(rs[j]))}}
  IN [i \in 1..Len(m) |-> m[i] /\ i \notin bad]
DurMin(m, q) == KeepRuns(m, LAMBDA n : n >= q)
DurMax(m, q) == KeepRuns(m, LAMBDA n : n <= q)
Mindur(m, md) == IF md = None THEN m ELSE DurMin(m, md[1])
\* Total, so that also states the code should never reach can be judged.
At(m, i) == i \in DOMAIN m /\ m[i]
AndMask(m, r) == [i \in 1..Len(m) |-> m[i] /\ At(r, i)]
Cut(s, a, b) == SubSeq(s, a, IF b > Len(s) THEN Len(s) ELSE b)
AllTrue(n) == [i \in 1..n |-> TRUE]

\* Operational and declarative reading of start/stop triggers.
StartStop(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
  IN FoldLeft(LAMBDA acc, i : Append(acc, ~b[i] /\ (a[i] \/ (i > 1 /\ acc[i-1]))),
              <<>>, Ident(n))
StartStopDecl(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
  IN [i \in 1..n |-> \E j \in 1..i : a[j] /\ \A k \in j..i : ~b[k]]

\* int(d * s) with d = <<num, den>>, s = <<num, den>>, truncating to zero.
TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
ReqDur(d, s) == TruncDiv(d[1] * s[1], d[2] * s[2])

(******************************** channels *********************************)
NumericKinds == {"i", "u", "f", "c"}
NanKind(k) == IF k \in {"i", "u", "f"} THEN "f" ELSE IF k = "c" THEN "c" ELSE "O"
Missing(k) == IF k \in NumericKinds THEN "nan" ELSE "None"
NanView(c, m) == [k |-> NanKind(c.k),
                  v |-> [i \in 1..Len(c.v) |-> IF At(m, i) THEN c.v[i] ELSE Missing(c.k)]]
FilterView(c, m) == [k |-> c.k, v |-> Pick(c.v, {i \in 1..Len(c.v) : At(m, i)})]
PartView(c, m, i) == LET r == Runs(m)[i + 1]
                     IN [k |-> c.k, v |-> Cut(c.v, r[1] + 1, r[2])]
\* np.append on the kinds the drivers mix.
Promote(a, b) == IF a = b THEN a
                 ELSE IF {a, b} = {"i", "f"} THEN "f"
                 ELSE IF {a, b} = {"u", "f"} THEN "f"
                 ELSE IF "O" \in {a, b} THEN "O"
                 ELSE IF "c" \in {a, b} /\ {a, b} \subseteq NumericKinds THEN "c"
                 ELSE "?"
Concat(a, b) == [k |-> Promote(a.k, b.k), v |-> a.v \o b.v]

(********************************* packs ***********************************)
ChPrefix == <<99, 104>>
RowCount(d) == IF d = <<>> THEN 0 ELSE Len(Get(d, Min(Keys(d))).v)
Fresh(p) == [p EXCEPT !.mask = Mindur(AllTrue(RowCount(p.data)), p.mindur)]
NewPack(data, names) ==
  [data |-> data, names |-> names, mask |-> AllTrue(RowCount(data)), mindur |-> None,
   nof |-> "none", fn |-> "", files |-> <<"">>, prefix |-> ChPrefix]

Ok      == [t |-> "ok"]
Exc(S)  == [t |-> "exc", e |-> S]
Arr(c)  == [t |-> "arr", c |-> c]
Bools(m) == [t |-> "bools", v |-> m]
Str(s)  == [t |-> "str", s |-> s]
Recs(f, rows) == [t |-> "recs", f |-> f, rows |-> rows]
NoKey == "KeyError"

\* ref is [t |-> "int", n] or [t |-> "str", s].
FirstNamed(names, s) == LET I == {i \in DOMAIN names : names[i][2] = s}
                        IN IF I = {} THEN None ELSE Some(names[Min(I)][1])
FallbackKey(prefix, s) ==
  LET L == Len(prefix)
      tail == SubSeq(s, L + 1, Len(s))
  IN IF Len(s) > L /\ SubSeq(s, 1, L) = prefix /\ AllDigits(tail)
     THEN Some(NatVal(tail)) ELSE None
\* Some(key) or None for KeyError.
Lookup(p, ref) ==
  IF ref.t = "int" THEN IF Has(p.data, ref.n) THEN Some(ref.n) ELSE None
  ELSE LET nk == FirstNamed(p.names, ref.s)
           fk == FallbackKey(p.prefix, ref.s)
       IN IF nk # None THEN IF Has(p.data, nk[1]) THEN nk ELSE None
          ELSE IF fk # None /\ Has(p.data, fk[1]) THEN fk ELSE None

\* The effective presentation: argument nof over attribute nof.
Effective(p, nof) == IF nof \in {"nan", "filter", "ignore"} THEN nof ELSE p.nof
View(p, key, part, nof) ==
  LET c == Get(p.data, key)
      e == Effective(p, nof)
  IN IF part # None
     THEN IF part[1] < Len(Runs(p.mask)) THEN Arr(PartView(c, p.mask, part[1]))
          ELSE Exc({"IndexError"})
     ELSE IF e = "nan" THEN Arr(NanView(c, p.mask))
     ELSE IF e = "filter" THEN Arr(FilterView(c, p.mask))
     ELSE Arr(c)
Call(p, ref, part, nof) ==
  LET k == Lookup(p, ref)
  IN IF k = None THEN Exc({NoKey}) ELSE View(p, k[1], part, nof)

(******************************** records **********************************)
Keywords == { <<105,102>>, <<105,110>>, <<105,115>>, <<111,114>>, <<97,115>>,
              <<102,111,114>>, <<100,101,102>>, <<97,110,100>>, <<116,114,121>>,
              <<99,108,97,115,115>>, <<78,111,110,101>>, <<119,105,116,104>>,
              <<108,97,109,98,100,97>> }
ValidField(s) == /\ Len(s) > 0
                 /\ IsAlpha(s[1]) \/ (s[1] > 127 /\ IsWord(s[1]))
                 /\ \A i \in DOMAIN s : IsWord(s[i])
                 /\ s \notin Keywords
Fallback(p, key) == p.prefix \o IntText(key)
Records(p, part, nof, fallback) ==
  LET ks == IF fallback THEN SortedKeys(p.data) ELSE SortedKeys(p.names)
      fs == [i \in DOMAIN ks |-> IF fallback THEN Fallback(p, ks[i]) ELSE Get(p.names, ks[i])]
      vs == [i \in DOMAIN ks |-> View(p, ks[i], part, nof)]
      n  == IF ks = <<>> THEN 0 ELSE Min({Len(vs[i].c.v) : i \in DOMAIN ks})
      nokey  == \E i \in DOMAIN ks : ~Has(p.data, ks[i])
      nopart == part # None /\ ks # <<>> /\ part[1] >= Len(Runs(p.mask))
  IN IF (\E i \in DOMAIN fs : ~ValidField(fs[i])) \/ ~IsInjective(fs) THEN Exc({"ValueError"})
     ELSE IF nokey \/ nopart
     THEN Exc((IF nokey THEN {NoKey} ELSE {}) \cup (IF nopart THEN {"IndexError"} ELSE {}))
     ELSE Recs(fs, [r \in 1..n |-> [i \in DOMAIN ks |-> vs[i].c.v[r]]])

(********************************* name() **********************************)
\* fwo: [t |-> "no"], [t |-> "yes"], or [t |-> "rx", rx |-> one of the classes].
RxFirst(rx, s) ==
  CASE rx = "word"  -> Words(s, IsWord)
    [] rx = "digit" -> Words(s, IsDigit)
    [] rx = "alpha" -> Words(s, IsAlpha)
    [] rx = "upper" -> Words(s, IsUpper)
    [] rx = "id"    -> \* an identifier: word characters from a non-digit on
         LET ws == Words(s, IsWord)
             starts(w) == {i \in DOMAIN w : ~IsDigit(w[i])}
             ok == SelectSeq(ws, LAMBDA w : starts(w) # {})
         IN [j \in DOMAIN ok |-> SubSeq(ok[j], Min(starts(ok[j])), Len(ok[j]))]
Name(p, ref, fwo, fallback) ==
  LET k == Lookup(p, ref)
  IN IF k = None THEN Exc({NoKey})
     ELSE IF fallback THEN Str(Fallback(p, k[1]))
     ELSE IF ~Has(p.names, k[1]) THEN Exc({NoKey})
     ELSE LET s == Get(p.names, k[1]) IN
          CASE fwo.t = "no"  -> Str(s)
            [] fwo.t = "yes" -> IF SplitSpace(s) = <<>> THEN Exc({"IndexError"})
                                ELSE Str(SplitSpace(s)[1])
            [] fwo.t = "rx"  -> IF RxFirst(fwo.rx, s) = <<>> THEN Exc({"ValueError"})
                                ELSE Str(RxFirst(fwo.rx, s)[1])

(****************************** append_pack ********************************)
CanAppend(a, b) ==
  /\ (a.data = <<>> \/ b.data = <<>> \/ Keys(a.data) = Keys(b.data))
  /\ (a.names = <<>> \/ b.names = <<>> \/ Keys(a.names) = Keys(b.names))
Appended(a, b) ==
  LET d == IF a.data = <<>> THEN b.data
           ELSE IF b.data = <<>> THEN a.data
           ELSE [i \in DOMAIN a.data |->
                   <<a.data[i][1], Concat(a.data[i][2], Get(b.data, a.data[i][1]))>>]
  IN Fresh([a EXCEPT !.data = d,
                     !.names = IF a.names = <<>> THEN b.names ELSE a.names,
                     !.files = a.files \o b.files])

(********************** the data and names containers **********************)
\* An item offered to a container: [bad |-> set of exceptions it may raise,
\* key, val]; bad = {} for a valid item.  Updates check before they store.
Items(its) == [i \in DOMAIN its |-> <<its[i].key, its[i].val>>]
BadOf(its) == UNION {{its[i].bad[j] : j \in DOMAIN its[i].bad} : i \in DOMAIN its}
\* <<new dict, result>>
Mutate(d, ev) ==
  CASE ev.route \in {"setitem", "update", "ior"} ->
         IF BadOf(ev.items) # {} THEN <<d, Exc(BadOf(ev.items))>>
         ELSE <<PutAll(d, Items(ev.items)), Ok>>
    [] ev.route = "setdefault" ->
         LET it == ev.items[1] IN
         IF BadOf(ev.items) # {} THEN <<d, Exc(BadOf(ev.items))>>
         ELSE IF Has(d, it.key) THEN <<d, [t |-> "item", x |-> Get(d, it.key)]>>
         ELSE <<Append(d, <<it.key, it.val>>), [t |-> "item", x |-> it.val]>>
    [] ev.route = "pop" ->
         IF Has(d, ev.key) THEN <<Del(d, ev.key), [t |-> "item", x |-> Get(d, ev.key)]>>
         ELSE <<d, Exc({NoKey})>>
    [] ev.route = "del" ->
         IF Has(d, ev.key) THEN <<Del(d, ev.key), Ok>> ELSE <<d, Exc({NoKey})>>
    [] ev.route = "get" ->
         IF Has(d, ev.key) THEN <<d, [t |-> "item", x |-> Get(d, ev.key)]>>
         ELSE <<d, [t |-> "none"]>>
    [] ev.route = "clear" -> <<(<<>>), Ok>>
    [] ev.route = "popitem" ->          \* the one put in last
         IF d = <<>> THEN <<d, Exc({NoKey})>>
         ELSE <<SubSeq(d, 1, Len(d) - 1), [t |-> "item", x |-> d[Len(d)][2]]>>
    [] ev.route = "popdef" ->           \* pop(key, None)
         IF Has(d, ev.key) THEN <<Del(d, ev.key), [t |-> "item", x |-> Get(d, ev.key)]>>
         ELSE <<d, [t |-> "none"]>>
    \* calls no dict accepts: more than one argument, things that are no pairs
    [] ev.route = "badcall" ->
         <<d, Exc({IF ev.how \in {"triple", "single"} THEN "ValueError" ELSE "TypeError"})>>

(****************************** transitions ********************************)
\* Apply(P, ev): the packs after event ev and its result.
Out(P, r) == [packs |-> P, res |-> r]
With(P, i, p) == [P EXCEPT ![i] = p]
Apply(P, ev) ==
  CASE ev.op = "hold" -> Out(P, Ok)
    [] ev.op = "create" ->
         IF BadOf(ev.items) \cup BadOf(ev.nitems) # {}
         THEN Out(P, Exc(BadOf(ev.items) \cup BadOf(ev.nitems)))
         ELSE Out(Append(P, NewPack(PutAll(<<>>, Items(ev.items)),
                                    PutAll(<<>>, Items(ev.nitems)))), Ok)
    [] ev.op = "setdata" ->
         IF BadOf(ev.items) # {} THEN Out(P, Exc(BadOf(ev.items)))
         ELSE Out(With(P, ev.p, Fresh([P[ev.p] EXCEPT !.data = PutAll(<<>>, Items(ev.items))])), Ok)
    [] ev.op = "setdatafrom" ->
         Out(With(P, ev.p, Fresh([P[ev.p] EXCEPT !.data = P[ev.q].data])), Ok)
    [] ev.op = "setnames" ->
         IF BadOf(ev.nitems) # {} THEN Out(P, Exc(BadOf(ev.nitems)))
         ELSE Out(With(P, ev.p, [P[ev.p] EXCEPT !.names = PutAll(<<>>, Items(ev.nitems))]), Ok)
    [] ev.op = "setnamesfrom" ->
         Out(With(P, ev.p, [P[ev.p] EXCEPT !.names = P[ev.q].names]), Ok)
    [] ev.op = "setmask" ->
         Out(With(P, ev.p, [P[ev.p] EXCEPT !.mask = Mindur(ev.mask, P[ev.p].mindur)]), Ok)
    [] ev.op = "setmaskfrom" ->
         Out(With(P, ev.p, [P[ev.p] EXCEPT !.mask = Mindur(P[ev.q].mask, P[ev.p].mindur)]), Ok)
    [] ev.op = "andmask" ->     \* pack.mask &= m
         Out(With(P, ev.p, [P[ev.p] EXCEPT !.mask = Mindur(AndMask(@, ev.mask), P[ev.p].mindur)]), Ok)
    [] ev.op = "reset" -> Out(With(P, ev.p, Fresh(P[ev.p])), Ok)
    [] ev.op = "setmindur" ->
         Out(With(P, ev.p, [P[ev.p] EXCEPT !.mindur = ev.md, !.mask = Mindur(@, ev.md)]), Ok)
    [] ev.op = "duration" ->
         LET q == ReqDur(ev.d, ev.s)
             m == IF ev.min THEN DurMin(P[ev.p].mask, q) ELSE DurMax(P[ev.p].mask, q)
         IN Out(With(P, ev.p, [P[ev.p] EXCEPT !.mask = m]), Bools(m))
    [] ev.op = "startstop" ->
         LET r == StartStop(ev.a, ev.b) IN
         IF ev.apply
         THEN Out(With(P, ev.p, [P[ev.p] EXCEPT !.mask = Mindur(AndMask(@, r), P[ev.p].mindur)]), Bools(r))
         ELSE Out(P, Bools(r))
    [] ev.op = "append" ->
         IF CanAppend(P[ev.p], P[ev.q])
         THEN Out(With(P, ev.p, Appended(P[ev.p], P[ev.q])), Ok)
         ELSE Out(P, Exc({"ValueError"}))
    [] ev.op = "mutdata" ->
         LET r == Mutate(P[ev.p].data, ev) IN Out(With(P, ev.p, [P[ev.p] EXCEPT !.data = r[1]]), r[2])
    [] ev.op = "mutnames" ->
         LET r == Mutate(P[ev.p].names, ev) IN Out(With(P, ev.p, [P[ev.p] EXCEPT !.names = r[1]]), r[2])
    [] ev.op = "setnof" -> Out(With(P, ev.p, [P[ev.p] EXCEPT !.nof = ev.v]), Ok)
    [] ev.op = "setprefix" -> Out(With(P, ev.p, [P[ev.p] EXCEPT !.prefix = ev.px]), Ok)
    [] ev.op = "setfn" ->
         Out(With(P, ev.p, [P[ev.p] EXCEPT !.fn = ev.v, !.files = <<ev.v>> \o (IF @ = <<>> THEN <<>> ELSE Tail(@))]), Ok)
    [] ev.op = "setbad" ->      \* an invalid attribute value
         Out(P, Exc(CASE ev.attr = "nof" -> {"ValueError"}
                      [] ev.attr \in {"mask", "mindur", "prefix", "fn"} -> {"TypeError"}
                      [] ev.attr = "del" -> {"AttributeError"}))
    [] ev.op = "call" -> Out(P, Call(P[ev.p], ev.ref, ev.part, ev.nof))
    [] ev.op = "records" -> Out(P, Records(P[ev.p], ev.part, ev.nof, ev.fallback))
    [] ev.op = "name" -> Out(P, Name(P[ev.p], ev.ref, ev.fwo, ev.fallback))

(************************* what a pack must satisfy ************************)
MindurHolds(p) == p.mindur # None => \A j \in DOMAIN Runs(p.mask) : RunLen(Runs(p.mask)[j]) >= p.mindur[1]
KeysInt(p) == /\ \A k \in Keys(p.data) : k \in Int
              /\ Cardinality(Keys(p.data)) = Len(p.data)
              /\ Cardinality(Keys(p.names)) = Len(p.names)
FilesHold(p) == Len(p.files) >= 1 /\ p.files[1] = p.fn
=============================================================================

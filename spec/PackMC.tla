------------------------------- MODULE PackMC -------------------------------
(***************************************************************************)
(* Bounded-exhaustive behaviours of Pack.  From a start history, every     *)
(* sequence of Depth events of the profile's alphabet is taken; each       *)
(* transition is emitted with its history, expected result and expected    *)
(* state, to be replayed in the real code.  The invariants state what the  *)
(* properties claim of every reachable state.                              *)
(***************************************************************************)
EXTENDS Pack, Json

CONSTANTS Profile, Depth, Emit
VARIABLES P, h, r
vars == <<P, h, r>>

BOOL == {TRUE, FALSE}
Masks(n) == [1..n -> BOOL]
C(k, v) == [k |-> k, v |-> v]
It(k, x) == [key |-> k, val |-> x, bad |-> <<>>]
BadKey(code) == [key |-> 0, val |-> C("i", <<"1">>), bad |-> <<"TypeError">>, bk |-> code]
BadVal(k, code) == [key |-> k, val |-> C("i", <<"1">>), bad |-> <<"ValueError">>, bv |-> code]
BadNKey(code) == [key |-> 0, val |-> <<97>>, bad |-> <<"TypeError">>, bk |-> code]
Create(its, nits) == [op |-> "create", items |-> its, nitems |-> nits]
IntRef(n) == [t |-> "int", n |-> n]
StrRef(s) == [t |-> "str", s |-> s]
CallEv(p, ref, part, nof) == [op |-> "call", p |-> p, ref |-> ref, part |-> part, nof |-> nof]
RecEv(p, part, nof, fb) == [op |-> "records", p |-> p, part |-> part, nof |-> nof, fallback |-> fb]
NameEv(p, ref, fwo, fb) == [op |-> "name", p |-> p, ref |-> ref, fwo |-> fwo, fallback |-> fb]

c0 == <<99,104,48>>   c1 == <<99,104,49>>   c10 == <<99,104,49,48>>
a_ == <<97>>          b_ == <<98>>          ab == <<97,32,98,49>>
x1 == <<120,49>>      for == <<102,111,114>>
I4 == C("i", <<"1","2","3","4">>)
F4 == C("f", <<"nan","x0x1.8p+0","7","-2">>)
U4 == C("U", <<"sa","s","sb b","sNone">>)
O4 == C("O", <<"None","sx","5","True">>)
B4 == C("b", <<"True","False","True","False">>)

RowKind(p) == IF p.data = <<>> THEN "O" ELSE Get(p.data, Min(Keys(p.data))).k

(******************************* alphabets *********************************)
MaskAlpha ==
  {[op |-> "setmask", p |-> 1, mask |-> m] : m \in Masks(4)}
  \cup {[op |-> "setmindur", p |-> 1, md |-> v] : v \in {None, <<1>>, <<2>>, <<3>>}}
  \cup {[op |-> "duration", p |-> 1, d |-> <<d, 1>>, s |-> <<1, 1>>, min |-> b] :
           d \in {1, 2, 3}, b \in BOOL}
  \cup {[op |-> "startstop", p |-> 1, a |-> a, b |-> b, apply |-> ap] :
           a \in {<<TRUE, FALSE, FALSE, FALSE>>, <<FALSE, TRUE, FALSE, TRUE>>},
           b \in {<<FALSE, FALSE, TRUE, FALSE>>, <<FALSE, FALSE, FALSE, FALSE>>}, ap \in BOOL}
  \cup {[op |-> "reset", p |-> 1],
        [op |-> "setdata", p |-> 1, items |-> <<It(3, F4)>>],
        [op |-> "append", p |-> 1, q |-> 2],
        [op |-> "setmaskfrom", p |-> 1, q |-> 2], [op |-> "setmaskfrom", p |-> 2, q |-> 1],
        [op |-> "duration", p |-> 2, d |-> <<2, 1>>, s |-> <<1, 1>>, min |-> TRUE],
        [op |-> "setmindur", p |-> 2, md |-> <<2>>]}
MaskInit == <<Create(<<It(0, I4)>>, <<>>), Create(<<It(0, I4)>>, <<>>)>>
\* the masks of the first two packs differ in length after an append
MaskGuard(ev) ==
  CASE ev.op = "setmask" -> Len(P[ev.p].mask) = Len(ev.mask)
    [] ev.op = "setmaskfrom" -> Len(P[ev.p].mask) = Len(P[ev.q].mask)
    [] ev.op = "startstop" -> ~ev.apply \/ Len(P[ev.p].mask) = Len(ev.a)
    [] ev.op = "append" -> Len(P[1].mask) < 9
    [] OTHER -> TRUE

FreshCols == {C("f", <<"nan", "nan">>), C("f", <<"1", "nan", "2">>), C("U", <<"s", "sa">>),
              C("O", <<"None", "None", "None">>), C("i", <<"0", "0">>), C("f", <<>>),
              C("b", <<"False", "False">>), C("c", <<"nan", "1">>)}
FreshAlpha ==
  {[op |-> "setdata", p |-> 1, items |-> <<It(k, c)>>] : k \in {0, 10}, c \in FreshCols}
  \cup {[op |-> "setdata", p |-> 1, items |-> <<It(10, c), It(9, d)>>] :
            c, d \in {C("f", <<"nan", "1">>), C("U", <<"s", "s", "s">>)}}
  \cup {[op |-> "create", items |-> <<It(2, c), It(-1, c)>>, nitems |-> <<>>] : c \in FreshCols}
  \cup {[op |-> "setdata", p |-> 1, items |-> <<>>],
        [op |-> "setdatafrom", p |-> 1, q |-> 2], [op |-> "append", p |-> 2, q |-> 1],
        [op |-> "append", p |-> 1, q |-> 1], [op |-> "reset", p |-> 1], [op |-> "reset", p |-> 2],
        [op |-> "duration", p |-> 1, d |-> <<3, 1>>, s |-> <<1, 1>>, min |-> TRUE],
        [op |-> "duration", p |-> 2, d |-> <<2, 1>>, s |-> <<1, 1>>, min |-> FALSE],
        [op |-> "setmindur", p |-> 1, md |-> <<3>>], [op |-> "setmindur", p |-> 1, md |-> None]}
FreshInit == <<Create(<<It(0, C("f", <<"nan", "1">>))>>, <<>>),
               Create(<<It(0, C("f", <<"2", "nan", "nan">>))>>, <<>>)>>

\* all triggers and all masks
SSAlpha == {[op |-> "startstop", p |-> 1, a |-> a, b |-> b, apply |-> TRUE] :
               a \in Masks(5), b \in Masks(5)}
SSInit == <<Create(<<It(0, C("i", <<"1","2","3","4","5">>))>>, <<>>)>>
SSAlpha0 == {[op |-> "setmask", p |-> 1, mask |-> m] :
               m \in {AllTrue(5), <<TRUE,FALSE,TRUE,TRUE,TRUE>>, <<FALSE,TRUE,TRUE,TRUE,FALSE>>}}
SSUneven == {[op |-> "startstop", p |-> 1, a |-> a, b |-> b, apply |-> FALSE] :
               a \in UNION {Masks(n) : n \in 0..3}, b \in UNION {Masks(n) : n \in 0..3}}

DurInit == <<Create(<<It(0, C("i", [i \in 1..9 |-> "1"]))>>, <<>>)>>
DurAlpha0 == {[op |-> "setmask", p |-> 1, mask |-> m] : m \in Masks(9)}
DurAlpha == {[op |-> "duration", p |-> 1, d |-> d, s |-> s, min |-> b] :
                d \in {<<2, 1>>, <<5, 2>>, <<3, 1>>, <<3, 4>>, <<0, 1>>, <<10, 1>>},
                s \in {<<1, 1>>, <<2, 1>>}, b \in BOOL}

ViewInit == <<Create(<<It(0, I4), It(1, F4), It(10, U4), It(3, O4), It(-2, B4)>>,
                     <<It(0, a_), It(1, x1)>>)>>
ViewAlpha0 == {[op |-> "setmask", p |-> 1, mask |-> m] : m \in Masks(4)}
ViewAlpha1 == {[op |-> "setnof", p |-> 1, v |-> v] : v \in {"none", "nan", "filter"}}
ViewAlpha == {CallEv(1, IntRef(k), part, nof) : k \in {0, 1, 10, 3, -2},
                 part \in {None, <<0>>, <<1>>, <<2>>}, nof \in {"none", "nan", "filter", "ignore"}}
RecAlpha == {RecEv(1, part, nof, fb) : part \in {None, <<0>>, <<1>>, <<2>>},
                 nof \in {"none", "nan", "filter", "ignore"}, fb \in BOOL}

NameSets == {<<>>, <<It(0, a_), It(1, b_), It(10, c1)>>, <<It(10, c0), It(1, c10), It(0, c1)>>,
             <<It(0, c1), It(1, c0)>>, <<It(10, ab), It(1, for), It(0, x1)>>,
             <<It(0, a_), It(5, b_)>>, <<It(0, a_), It(1, a_)>>, <<It(5, c1), It(0, x1)>>,
             <<It(11, c0), It(0, b_), It(1, a_), It(10, x1)>>}
LookAlpha0 == {[op |-> "setnames", p |-> 1, nitems |-> n] : n \in NameSets}
LookAlpha1 == {[op |-> "setprefix", p |-> 1, px |-> v] : v \in {<<99,104>>, <<120>>, <<99>>, <<99,104,49>>}}
Refs == {StrRef(s) : s \in {c0, c1, c10, a_, b_, ab, x1, <<>>, c1 \o <<120>>, c1 \o <<10>>,
            c1 \o <<32>>, <<32>> \o c1, <<99,104,48,49>>, <<99,104>>, <<120,49,48>>, <<99,49>>,
            <<67,72,49>>, c1 \o <<48>>, c1 \o <<49>>, <<49>>, <<99,104,45,49>>, c1 \o <<46,48>>}}
        \cup {IntRef(n) : n \in {0, 1, 10, 5, 11, -1}}
LookAlpha == {CallEv(1, ref, None, "ignore") : ref \in Refs}
NameAlpha == {NameEv(1, ref, f, fb) : ref \in Refs, fb \in BOOL,
               f \in {[t |-> "no"], [t |-> "yes"], [t |-> "rx", rx |-> "word"],
                      [t |-> "rx", rx |-> "digit"], [t |-> "rx", rx |-> "id"]}}
LookInit == <<Create(<<It(10, C("i", <<"10">>)), It(0, C("i", <<"0">>)), It(1, C("i", <<"1">>)),
                       It(11, C("i", <<"11">>))>>, <<>>)>>
RecLook == {RecEv(1, None, "none", fb) : fb \in BOOL}

Pk1 == <<It(0, C("i", <<"1">>)), It(1, C("f", <<"nan">>))>>
Pk2 == <<It(1, C("f", <<"5", "6">>)), It(0, C("i", <<"7", "8">>))>>
AppInit == <<Create(Pk1, <<It(0, a_), It(1, b_)>>), Create(Pk2, <<It(1, x1)>>),
             Create(<<>>, <<>>)>>
AppAlpha ==
  {[op |-> "append", p |-> i, q |-> j] : i, j \in 1..3}
  \cup {[op |-> "setfn", p |-> i, v |-> "f" \o ToString(i)] : i \in 1..3}
  \cup {[op |-> "setnames", p |-> i, nitems |-> <<It(0, a_), It(1, b_)>>] : i \in 2..3}
  \cup {[op |-> "setnamesfrom", p |-> 2, q |-> 1], [op |-> "setdatafrom", p |-> 3, q |-> 2],
        [op |-> "mutdata", p |-> 2, route |-> "setitem", items |-> <<It(2, C("i", <<"9", "9">>))>>],
        [op |-> "mutnames", p |-> 3, route |-> "update", items |-> <<It(1, ab)>>],
        [op |-> "mutdata", p |-> 3, route |-> "pop", items |-> <<>>, key |-> 1],
        [op |-> "setmindur", p |-> 1, md |-> <<2>>],
        [op |-> "setmaskfrom", p |-> 3, q |-> 2],
        [op |-> "duration", p |-> 3, d |-> <<1, 1>>, s |-> <<1, 1>>, min |-> FALSE],
        [op |-> "setmask", p |-> 2, mask |-> <<TRUE, FALSE>>]}

V1 == C("i", <<"1", "2">>)   V2 == C("U", <<"sx", "sy">>)
Hows == {"dict", "pairs", "iter", "mapping", "lists", "gen", "userdict"}
BadCalls == {"two", "twopairs", "twoior", "int", "none", "triple", "single", "ints", "iorint"}
ContInit == <<Create(<<It(0, I4), It(1, F4)>>, <<It(0, a_)>>)>>
ItemSets == {<<It(0, V1)>>, <<It(2, V1), It(0, V2)>>, <<BadKey("str")>>, <<It(3, V1), BadKey("float")>>,
             <<BadVal(0, "scalar")>>, <<It(2, V2), BadVal(3, "nested")>>, <<>>,
             <<BadKey("none"), It(1, V1)>>, <<BadVal(5, "arr2d"), It(1, V1)>>, <<It(4, C("f", <<>>))>>}
NItemSets == {<<It(0, b_)>>, <<It(2, a_), It(0, x1)>>, <<BadNKey("str")>>, <<It(3, a_), BadNKey("float")>>,
              <<>>, <<BadNKey("tuple"), It(1, a_)>>, <<It(7, ab), BadNKey("npint")>>}
ContAlpha ==
  {[op |-> "mutdata", p |-> 1, route |-> "update", how |-> w, items |-> s] : w \in Hows, s \in ItemSets}
  \cup {[op |-> "mutdata", p |-> 1, route |-> "ior", how |-> w, items |-> s] :
             w \in {"dict", "pairs", "gen"}, s \in ItemSets}
  \cup {[op |-> "mutdata", p |-> 1, route |-> w, items |-> s] :
             w \in {"setitem", "setdefault"}, s \in {s \in ItemSets : Len(s) = 1}}
  \cup {[op |-> "mutdata", p |-> 1, route |-> w, items |-> <<>>, key |-> k] :
             w \in {"pop", "del", "get", "popdef"}, k \in {0, 2}}
  \cup {[op |-> "mutdata", p |-> 1, route |-> "popitem", items |-> <<>>]}
  \cup {[op |-> "mutdata", p |-> 1, route |-> "badcall", items |-> <<>>, how |-> bc] : bc \in BadCalls}
  \cup {[op |-> "setdata", p |-> 1, how |-> w, items |-> s] : w \in {"dict", "gen"}, s \in ItemSets}
NContAlpha ==
  {[op |-> "mutnames", p |-> 1, route |-> "update", how |-> w, items |-> s] : w \in Hows, s \in NItemSets}
  \cup {[op |-> "mutnames", p |-> 1, route |-> "ior", how |-> w, items |-> s] :
             w \in {"dict", "pairs", "gen"}, s \in NItemSets}
  \cup {[op |-> "mutnames", p |-> 1, route |-> w, items |-> s] :
             w \in {"setitem", "setdefault"}, s \in {s \in NItemSets : Len(s) = 1}}
  \cup {[op |-> "mutnames", p |-> 1, route |-> w, items |-> <<>>, key |-> k] :
             w \in {"pop", "del", "get", "popdef"}, k \in {0, 2}}
  \cup {[op |-> "mutnames", p |-> 1, route |-> "popitem", items |-> <<>>]}
  \cup {[op |-> "mutnames", p |-> 1, route |-> "badcall", items |-> <<>>, how |-> bc] : bc \in BadCalls}
  \cup {[op |-> "setnames", p |-> 1, nhow |-> w, nitems |-> s] : w \in {"dict", "gen"}, s \in NItemSets}
CtorAlpha ==
  {[op |-> "create", how |-> w, nhow |-> v, items |-> s, nitems |-> t] :
     w, v \in {"dict", "gen", "pairs"}, s \in ItemSets, t \in NItemSets}

AttrAlpha ==
  {[op |-> "setbad", p |-> 1, attr |-> at, which |-> w] :
      at \in {"nof", "mask", "mindur", "prefix", "fn", "del"}, w \in 0..4}
  \cup {[op |-> "setbad", p |-> 1, attr |-> "del", which |-> w] : w \in {5, 6}}
  \cup {[op |-> "setnof", p |-> 1, v |-> v] : v \in {"none", "nan", "filter"}}
  \cup {[op |-> "setfn", p |-> 1, v |-> v] : v \in {"", "x.txt"}}
  \cup {[op |-> "setprefix", p |-> 1, px |-> x1], [op |-> "append", p |-> 1, q |-> 1],
        [op |-> "setmindur", p |-> 1, md |-> <<2>>],
        [op |-> "setmask", p |-> 1, mask |-> <<TRUE, FALSE>>]}
AttrInit == <<Create(<<It(0, V1)>>, <<It(0, a_)>>)>>

(***************************************************************************)
Start == CASE Profile = "mask" -> MaskInit [] Profile = "fresh" -> FreshInit
           [] Profile \in {"ss", "ssuneven"} -> SSInit [] Profile = "dur" -> DurInit
           [] Profile \in {"view", "rec"} -> ViewInit
           [] Profile \in {"look", "name", "reclook"} -> LookInit [] Profile = "append" -> AppInit
           [] Profile \in {"cont", "ncont", "ctor"} -> ContInit [] Profile = "attr" -> AttrInit
Alpha(d) ==
  CASE Profile = "mask" -> {e \in MaskAlpha : MaskGuard(e)}
    [] Profile = "fresh" -> {e \in FreshAlpha :
           e.op = "append" => Promote(RowKind(P[e.p]), RowKind(P[e.q])) # "?"}
    [] Profile = "ss" -> IF d = 1 THEN SSAlpha0 ELSE SSAlpha
    [] Profile = "ssuneven" -> SSUneven
    [] Profile = "dur" -> IF d = 1 THEN DurAlpha0 ELSE DurAlpha
    [] Profile = "view" -> IF d = 1 THEN ViewAlpha0 ELSE IF d = 2 THEN ViewAlpha1 ELSE ViewAlpha
    [] Profile = "rec" -> IF d = 1 THEN ViewAlpha0 ELSE IF d = 2 THEN ViewAlpha1 ELSE RecAlpha
    [] Profile = "look" -> IF d = 1 THEN LookAlpha0 ELSE IF d = 2 THEN LookAlpha1 ELSE LookAlpha
    [] Profile = "name" -> IF d = 1 THEN LookAlpha0 ELSE IF d = 2 THEN LookAlpha1 ELSE NameAlpha
    [] Profile = "reclook" -> IF d = 1 THEN LookAlpha0 ELSE IF d = 2 THEN LookAlpha1 ELSE RecLook
    [] Profile = "append" -> {e \in AppAlpha :
           /\ e.op = "setmask" => Len(P[e.p].mask) = Len(e.mask)
           /\ e.op = "setmaskfrom" => Len(P[e.p].mask) = Len(P[e.q].mask)}
    [] Profile = "cont" -> ContAlpha
    [] Profile = "ncont" -> NContAlpha
    [] Profile = "ctor" -> CtorAlpha
    [] Profile = "attr" -> {e \in AttrAlpha : e.op = "setmask" => Len(P[1].mask) = Len(e.mask)}

RECURSIVE Feed(_, _)
Feed(st, evs) == IF evs = <<>> THEN st ELSE Feed(Apply(st, Head(evs)).packs, Tail(evs))

Init == /\ P = Feed(<<>>, Start) /\ h = <<>> /\ r = Ok
        /\ Emit => PrintT("@@" \o ToJson([start |-> Start]))
Next == /\ Len(h) < Depth
        /\ \E ev \in Alpha(Len(h) + 1) :
             LET out == Apply(P, ev)
             IN /\ P' = out.packs
                /\ r' = out.res
                /\ h' = Append(h, ev)
                /\ Emit => PrintT("@@" \o ToJson([h |-> h', r |-> r', s |-> P']))
Spec == Init /\ [][Next]_vars
\* For the design check alone histories are irrelevant.
View0 == <<P, Len(h)>>

(*************************** what must be true *****************************)
LastEv == h[Len(h)]
Inv_Parts ==          \* C01, C06: parts tile the filtered view
  \A i \in DOMAIN P : \A k \in DOMAIN P[i].data :
    LET c == P[i].data[k][2]
        n == Len(Runs(P[i].mask))
    IN Len(c.v) = Len(P[i].mask) =>
       /\ FilterView(c, P[i].mask).v = FlattenSeq([j \in 1..n |-> PartView(c, P[i].mask, j - 1).v])
       /\ \A j \in 1..n : Len(PartView(c, P[i].mask, j - 1).v) > 0
       /\ View(P[i], P[i].data[k][1], <<n>>, "none").t = "exc"
Inv_Mindur == \A i \in DOMAIN P : MindurHolds(P[i])                       \* C02
Inv_Fresh == (h # <<>> /\ LastEv.op \in {"setdata", "setdatafrom", "reset", "append"} /\ r.t = "ok")
             => LET p == P[LastEv.p] IN                                     \* C03
                /\ Len(p.mask) = RowCount(p.data)
                /\ p.mindur = None => \A i \in DOMAIN p.mask : p.mask[i]
                /\ p.mindur # None => (\A i \in DOMAIN p.mask : p.mask[i]) \/ (\A i \in DOMAIN p.mask : ~p.mask[i])
Inv_Files == \A i \in DOMAIN P : FilesHold(P[i])                          \* C12
Inv_Keys == \A i \in DOMAIN P : KeysInt(P[i])                             \* C10
Inv_StartStop == (h # <<>> /\ LastEv.op = "startstop") =>
                 r.v = StartStopDecl(LastEv.a, LastEv.b)                      \* C05
\* C04, C02: filtering only ever removes whole runs.
Act_Remove == [][(h' # h /\ h'[Len(h')].op \in {"duration", "setmindur"}) =>
   LET ev == h'[Len(h')]
       m == P[ev.p].mask
       x == P'[ev.p].mask
   IN /\ Len(x) = Len(m)
      /\ \A i \in DOMAIN m : x[i] => m[i]
      /\ \A j \in DOMAIN Runs(x) : \E k \in DOMAIN Runs(m) : Runs(x)[j] = Runs(m)[k]]_vars
\* C09, C10, C11, C12: an error changes nothing, and only the pack operated
\* on changes.
Act_Frame == [][h' # h =>
   /\ r'.t = "exc" => P' = P
   /\ \A i \in DOMAIN P : (h'[Len(h')].op = "create" \/ i # h'[Len(h')].p) => P'[i] = P[i]
   /\ h'[Len(h')].op \in {"call", "records", "name", "setbad"} => P' = P]_vars
=============================================================================

----------------------------- MODULE PackTrace ------------------------------
(***************************************************************************)
(* Judge recorded histories of the real ChannelPack against Pack.          *)
(* Each step is judged from the observed state before it, so one mismatch  *)
(* does not hide the following ones.  Every failing fact is printed with   *)
(* the properties it belongs to.                                           *)
(***************************************************************************)
EXTENDS Pack, Json

CONSTANT TraceFile
Traces == JsonDeserialize(TraceFile)

VARIABLES t, s, bad
vars == <<t, s, bad>>

(***************************** observed values *****************************)
AbsPack(tr, o) ==
  [data |-> [i \in DOMAIN o.data |-> <<o.data[i][1], tr.cols[o.data[i][2]]>>],
   names |-> o.names, mask |-> tr.masks[o.mask], mindur |-> o.mindur,
   nof |-> o.nof, fn |-> o.fn, files |-> o.files, prefix |-> o.prefix]
AbsPacks(tr, st) == [i \in DOMAIN st.packs |-> AbsPack(tr, st.packs[i])]
AbsItems(tr, its) == [i \in DOMAIN its |->
   [bad |-> its[i].bad, key |-> its[i].key,
    val |-> IF its[i].bad = <<>> THEN tr.cols[its[i].val] ELSE <<>>]]
AbsEv(tr, ev) ==
  IF ev.op \in {"setmask", "andmask"} THEN [ev EXCEPT !.mask = tr.masks[@]]
  ELSE IF ev.op = "startstop" THEN [ev EXCEPT !.a = tr.masks[@], !.b = tr.masks[@]]
  ELSE IF ev.op \in {"create", "setdata", "mutdata"} THEN [ev EXCEPT !.items = AbsItems(tr, @)]
  ELSE ev
EmptyState == [packs |-> <<>>, held |-> <<>>]
PreState(tr, n) == IF n = 1 THEN EmptyState ELSE tr.steps[n-1].post

ResMatch(tr, ev, e, o) ==
  CASE e.t = "exc"   -> o.t = "exc" /\ \E x \in e.e : \E j \in DOMAIN o.mro : o.mro[j] = x
    [] e.t = "arr"   -> o.t = "arr" /\ tr.cols[o.c] = e.c
    [] e.t = "bools" -> o.t = "bools" /\ tr.masks[o.v] = e.v
    [] e.t = "str"   -> o.t = "str" /\ o.s = e.s
    [] e.t = "item"  -> \/ o.t = "itemc" /\ ev.op = "mutdata" /\ tr.cols[o.x] = e.x
                        \/ o.t = "item" /\ ev.op = "mutnames" /\ o.x = e.x
    [] e.t = "recs"  -> /\ o.t = "recs"
                        /\ o.rows = e.rows
                        /\ e.rows # <<>> => o.f = e.f
    [] OTHER         -> o.t = e.t

(***************************** failing facts *******************************)
\* Facts about pack i of the observed post state o, expected x.
PackFacts(tr, o, x) ==
  LET a  == AbsPack(tr, o)
      rs == Runs(a.mask)
  IN UNION {
      IF o.mb /\ a.mask = x.mask THEN {} ELSE {"mask"},
      IF SameDict(a.data, x.data) THEN {} ELSE {"data"},
      IF SameDict(a.names, x.names) THEN {} ELSE {"names"},
      IF a.mindur = x.mindur THEN {} ELSE {"mindur"},
      IF a.nof = x.nof THEN {} ELSE {"nof"},
      IF a.fn = x.fn THEN {} ELSE {"fn"},
      IF a.files = x.files THEN {} ELSE {"files"},
      IF a.prefix = x.prefix THEN {} ELSE {"prefix"},
      IF /\ o.parts = [j \in 1..Len(rs) |-> j - 1]
         /\ o.oor
         /\ \A j \in DOMAIN o.pv : tr.cols[o.pv[j][2]] = PartView(Get(a.data, o.pv[j][1]), a.mask, j - 1)
      THEN {} ELSE {"parts"} }
\* Well-formedness needed before the part views can be evaluated.
Sane(tr, o) == \A j \in DOMAIN o.pv : j <= Len(Runs(tr.masks[o.mask]))
SafeFacts(tr, o, x) == IF Sane(tr, o) THEN PackFacts(tr, o, x)
                       ELSE {"parts"} \cup PackFacts(tr, [o EXCEPT !.pv = <<>>], x)

Reads == {"call", "records", "name"}
FreshOps == {"create", "setdata", "setdatafrom", "append", "reset"}
MaskOps == {"setmask", "setmaskfrom", "andmask"}
Own(ev) ==
  CASE ev.op = "call" -> {"C06"} [] ev.op = "records" -> {"C06", "C08"}
    [] ev.op = "name" -> {"C06", "C13"}
    [] ev.op = "duration" -> {"C04"} [] ev.op = "startstop" -> {"C05"}
    [] ev.op = "append" -> {"C09"} [] ev.op = "reset" -> {"C03"}
    [] ev.op \in MaskOps \cup {"setmindur"} -> {"C02"}
    [] ev.op \in {"setbad", "setnof", "setprefix", "setfn"} -> {"C12"}
    [] OTHER -> {"C10"}
HasMindur(pre, ev) == IF ev.op \in {"create", "hold"} THEN FALSE ELSE pre[ev.p].mindur # None
\* Properties a failing fact about the pack operated on belongs to.
SelfLabel(pre, ev, f) ==
  CASE f = "parts" -> {"C01"}
    [] f = "mask" -> (IF ev.op \in FreshOps THEN {"C03"} ELSE {})
                     \cup (IF ev.op = "append" THEN {"C09"} ELSE {})
                     \cup (IF ev.op \in MaskOps THEN {"C02", "C12"} ELSE {})
                     \cup (IF ev.op \notin FreshOps THEN Own(ev) ELSE {})
                     \cup (IF HasMindur(pre, ev) THEN {"C02"} ELSE {})
    [] f \in {"fn", "files"} -> Own(ev) \cup (IF ev.op = "append" THEN {} ELSE {"C12"})
    [] f \in {"mindur", "nof", "prefix"} -> Own(ev) \cup {"C12"}
    [] OTHER -> Own(ev)
ResLabel(ev, e, o) ==
  LET nokey == (e.t = "exc" /\ NoKey \in e.e)
               \/ (o.t = "exc" /\ \E j \in DOMAIN o.mro : o.mro[j] = NoKey)
  IN CASE ev.op = "call" ->
            IF nokey \/ (ev.ref.t = "str" /\ ev.part = None /\ ev.nof = "ignore") THEN {"C07"}
            ELSE IF ev.part # None THEN {"C01", "C06"} ELSE {"C06"}
       [] ev.op = "records" -> {"C08"}
       [] ev.op = "name" -> {"C13"} \cup (IF nokey THEN {"C07"} ELSE {})
       [] ev.op = "append" -> {"C09"}
       [] ev.op = "setmindur" -> {"C02", "C12"}
       [] ev.op \in MaskOps -> {"C02", "C12"}
       [] OTHER -> Own(ev)

\* All <<property, fact>> failing in step n of trace tr.
Fails(tr, n) ==
  LET st   == tr.steps[n]
      prs  == PreState(tr, n)
      pre  == AbsPacks(tr, prs)
      ev   == AbsEv(tr, st.ev)
      exp  == Apply(pre, ev)
      post == st.post.packs
      self(i) == IF ev.op = "hold" THEN FALSE
                 ELSE IF ev.op = "create" THEN i > Len(pre) ELSE i = ev.p
      resbad == IF ResMatch(tr, ev, exp.res, st.res) THEN {}
                ELSE {<<l, "result">> : l \in ResLabel(ev, exp.res, st.res)}
      cnt  == IF Len(post) = Len(exp.packs) THEN {} ELSE {<<"C10", "count">>}
      held == IF \A i \in DOMAIN prs.held : st.post.held[i] = prs.held[i] THEN {}
              ELSE {<<"C11", "callers object changed">>}
                   \cup {<<l, "callers object changed">> : l \in IF ev.op \in Reads THEN {"C06"} ELSE {}}
      facts(i) == SafeFacts(tr, IF self(i) THEN post[i] ELSE [post[i] EXCEPT !.mb = TRUE],
                            exp.packs[i])
      pk(i) == IF self(i)
               THEN UNION {{<<l, f>> : l \in SelfLabel(pre, ev, f)} : f \in facts(i)}
               ELSE {<<"C11", "other pack: " \o f>> : f \in facts(i)}
                    \cup (IF ev.op = "append" /\ i = ev.q
                          THEN {<<"C09", "source pack: " \o f>> : f \in facts(i)} ELSE {})
  IN resbad \cup cnt \cup held
     \cup UNION {pk(i) : i \in DOMAIN post \cap DOMAIN exp.packs}

Init == t \in DOMAIN Traces /\ s = 0 /\ bad = {}
Next == /\ s < Len(Traces[t].steps)
        /\ s' = s + 1
        /\ t' = t
        /\ bad' = Fails(Traces[t], s + 1)
        /\ bad' # {} => PrintT("@@" \o ToJson([trace |-> t, step |-> s + 1, fails |-> bad']))
Spec == Init /\ [][Next]_vars

\* The observed packs satisfy the state properties of the specification.
StateOk == s = 0 \/ bad # {} \/
           \A i \in DOMAIN Traces[t].steps[s].post.packs :
             LET p == AbsPack(Traces[t], Traces[t].steps[s].post.packs[i])
             IN MindurHolds(p) /\ FilesHold(p) /\ KeysInt(p)
=============================================================================

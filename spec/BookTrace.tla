----------------------------- MODULE BookTrace ------------------------------
(***************************************************************************)
(* Judge of recorded histories of open workbooks.  A case has the file f   *)
(* (see SheetCases), demand (sheets are loaded on demand), ragged, fmt     *)
(* (opened with formatting_info), named (the file has sheet names) and     *)
(* steps <<event, result>>.  Events:                                       *)
(*   <<"index", n>>, <<"item", n>>, <<"name", text>>, <<"itemname", text>> *)
(*   <<"sheets">>, <<"iter">>: objects handed out                          *)
(*   <<"names">>, <<"nsheets">>, <<"loaded", n>>, <<"loadedname", text>>,  *)
(*   <<"unload", n>>, <<"unloadname", text>>, <<"release">>                *)
(*   <<"see", object, what, numbers>>: an accessor of a sheet.             *)
(* Results: <<"ok", x>> or <<"err", names of the error's classes>>.        *)
(***************************************************************************)
EXTENDS Biff, Xlsx, Json

CONSTANT CaseFile
Cases == JsonDeserialize(CaseFile)
VARIABLES i, k, wb, cur, objs, released
B == INSTANCE Book WITH MaxSheets <- 9

C == Cases[i]
WB(f, fmt) == IF f.form = "xlsx" THEN XlsxBook(f.x) ELSE IF fmt THEN BiffBookFmt(f.x) ELSE BiffBook(f.x)
Shown(s) == IF C.named THEN wb.sheets[s].name ELSE C.names[s]

---------------------------------------------------------------------------
(* Accessors.  A cell is <<type, value>>. *)
Typed(v) == CASE v = EMPTY -> <<0, <<"s", <<>>>>>>
              [] v[1] = "blank" -> <<6, <<"s", <<>>>>>>
              [] v[1] = "s" -> <<1, v>>
              [] v[1] = "num" -> <<2, v[2]>>
              [] v[1] = "date" -> <<3, v[2]>>
              [] v[1] = "b" -> <<4, SmallNum(v[2])>>
              [] OTHER -> <<5, SmallNum(v[2])>>
Cell(sh, r, c) == Typed(CellAt(sh, r, c))
\* a number counts from the end when it is negative; Python's slices
At(n, x) == IF x < 0 THEN n + x ELSE x
Clip(n, x) == LET y == At(n, x) IN IF y < 0 THEN 0 ELSE IF y > n THEN n ELSE y
Slice(n, a, b) ==        \* a, b options of numbers
  LET lo == IF a = <<>> THEN 0 ELSE Clip(n, a[1])
      hi == IF b = <<>> THEN n ELSE Clip(n, b[1])
  IN [j \in 1..(IF hi > lo THEN hi - lo ELSE 0) |-> lo + j - 1]
Out(ok, x) == IF ok THEN <<"ok", x>> ELSE <<"err">>
Picked(form, cells) == CASE form = "types" -> [j \in DOMAIN cells |-> cells[j][1]]
                         [] form = "values" -> [j \in DOMAIN cells |-> cells[j][2]]
                         [] OTHER -> cells
\* rows of full width
See(sh, s, what, a) ==
  LET nr == Rows(sh)  nc == Cols(sh)
      okr == a # <<>> /\ At(nr, a[1]) \in 0..(nr - 1)
      okc(x) == At(nc, x) \in 0..(nc - 1)
      row(r) == [j \in 1..nc |-> Cell(sh, r, j - 1)]
      opt(x) == IF x = 99999 THEN <<>> ELSE <<x>>
  IN CASE what = "size" -> Out(TRUE, <<nr, nc, s - 1>>)
       [] what = "rows" -> Out(TRUE, [r \in 1..nr |-> row(r - 1)])
       [] what = "cell" -> IF okr /\ okc(a[2]) THEN Out(TRUE, Cell(sh, At(nr, a[1]), At(nc, a[2]))) ELSE Out(FALSE, 0)
       [] what = "row" -> IF okr THEN Out(TRUE, row(At(nr, a[1]))) ELSE Out(FALSE, 0)
       [] what = "rowlen" -> IF okr THEN Out(TRUE, nc) ELSE Out(FALSE, 0)
       [] what \in {"rowslice", "rowtypes", "rowvalues"} ->
            IF ~okr THEN Out(FALSE, 0)
            ELSE LET cs == Slice(nc, opt(a[2]), opt(a[3]))
                 IN Out(TRUE, Picked(SubSeq(what, 4, Len(what)), [j \in DOMAIN cs |-> Cell(sh, At(nr, a[1]), cs[j])]))
       [] OTHER ->      \* a column: the column is looked at only when there are rows
            LET rs == Slice(nr, opt(a[2]), opt(a[3]))
            IN IF rs # <<>> /\ ~okc(a[1]) THEN Out(FALSE, 0)
               ELSE Out(TRUE, Picked(SubSeq(what, 4, Len(what)), [j \in DOMAIN rs |-> Cell(sh, rs[j], At(nc, a[1]))]))
\* rows without the empty cells at their ends
Ragged(sh, res) ==
  /\ res[1] = "ok" /\ Len(res[2]) = Rows(sh)
  /\ \A r \in DOMAIN res[2] : LET n == Len(res[2][r])
                              IN /\ n <= Cols(sh) /\ \A j \in 1..n : res[2][r][j] = Cell(sh, r - 1, j - 1)
                                 /\ \A j \in (n + 1)..Cols(sh) : CellAt(sh, r - 1, j - 1) = EMPTY

---------------------------------------------------------------------------
NumberOf(n) == IF n \in 0..(Len(cur) - 1) THEN {n + 1} ELSE {}
NameNumber(t) == LET S == {s \in 1..Len(cur) : Shown(s) = t} IN IF S = {} THEN {} ELSE {Min(S)}
Target(ev) == IF ev[1] \in {"index", "item", "loaded", "unload"} THEN NumberOf(ev[2]) ELSE NameNumber(ev[2])
ByName(ev) == ev[1] \in {"name", "itemname", "loadedname", "unloadname"}
Same(res) == UNCHANGED <<cur, objs, released>> /\ res
IsErr(res, cls) == res[1] = "err" /\ (cls = "" \/ cls \in {res[2][j] : j \in DOMAIN res[2]})
NoLoad == IF C.f.form = "xlsx" THEN "" ELSE "XLRDError"

\* The state after the step, and whether the result is right
After(ev) ==
  CASE ev[1] \in {"index", "item", "name", "itemname"} /\ Target(ev) # {} -> B!Ask(Min(Target(ev)))
    [] ev[1] \in {"sheets", "iter"} -> B!AskAll
    [] ev[1] \in {"unload", "unloadname"} /\ Target(ev) # {} -> B!Unload(Min(Target(ev)))
    [] ev[1] = "release" -> B!Release
    [] OTHER -> UNCHANGED <<cur, objs, released>>
Right(ev, res) ==
  CASE ev[1] \in {"index", "item", "name", "itemname", "loaded", "loadedname", "unload", "unloadname"} /\ Target(ev) = {} ->
         IsErr(res, IF ByName(ev) THEN "XLRDError" ELSE "IndexError")
    [] ev[1] \in {"index", "item", "name", "itemname"} ->
         LET g == B!Given(<<Min(Target(ev))>>)
         IN IF g = <<>> THEN IsErr(res, NoLoad) ELSE res = <<"ok", g[1][1]>>
    [] ev[1] \in {"sheets", "iter"} ->
         LET g == B!Given(B!All) IN IF g = <<>> THEN IsErr(res, NoLoad) ELSE res = <<"ok", g[1]>>
    [] ev[1] = "names" -> res = <<"ok", [s \in 1..Len(cur) |-> Shown(s)]>>
    [] ev[1] = "nsheets" -> res = <<"ok", Len(cur)>>
    [] ev[1] \in {"loaded", "loadedname"} -> res = <<"ok", cur[Min(Target(ev))] # 0>>
    [] ev[1] \in {"unload", "unloadname", "release"} -> res[1] = "ok"
    [] ev[1] = "see" /\ ev[2] \in DOMAIN objs ->
         LET s == objs[ev[2]]
             sh == wb.sheets[s]
             e == See(sh, s, ev[3], ev[4])
         IN IF C.ragged /\ ev[3] = "rows" THEN Ragged(sh, res)
            ELSE IF e[1] = "err" THEN res[1] = "err" ELSE res = e
    [] OTHER -> FALSE

Init == /\ i \in 1..Len(Cases) /\ k = 1
        /\ wb = WB(Cases[i].f, Cases[i].fmt)
        /\ cur = [s \in DOMAIN wb.sheets |-> IF Cases[i].demand THEN 0 ELSE -1]
        /\ objs = <<>> /\ released = ~Cases[i].demand
Next == /\ k <= Len(C.steps) /\ k' = k + 1 /\ i' = i /\ wb' = wb
        /\ After(C.steps[k][1])
        /\ Right(C.steps[k][1], C.steps[k][2]) \/ PrintT("@@" \o ToJson([case |-> i, step |-> k]))
Spec == Init /\ [][Next]_<<i, k, wb, cur, objs, released>>
=============================================================================

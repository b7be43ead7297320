------------------------------ MODULE TextRead ------------------------------
(***************************************************************************)
(* Reading delimited text: what textpack and lazy_textpack mean.           *)
(*                                                                         *)
(* Text is a sequence of code points, a stream of bytes a sequence of      *)
(* bytes.  A parameter record p has                                        *)
(*   mode  "t" text, "b" bytes without encoding, "d" bytes with encoding   *)
(*   enc   "utf-8" or "latin-1" (mode d)                                   *)
(*   delim, usecols, names   options: <<>> not given, <<x>> given          *)
(*   skip, hasnames, strip   as the parameters of textpack                 *)
(*   convs sequence of <<column, function name>>                           *)
(* Values are <<"n", negative, digits, exponent>>, <<"nan">>,              *)
(* <<"inf", negative>>, <<"s", text>> and <<"b", bytes>>.                  *)
(***************************************************************************)
EXTENDS Text, TLC

\* White space by the kind of text.
Blank(mode, c) == IF mode = "t" THEN IsSpace(c) ELSE IsAsciiSpace(c)

---------------------------------------------------------------------------
(* Numbers *)
NormNum(neg, ds, e) ==
  LET nz == {i \in DOMAIN ds : ds[i] # 48}
  IN IF nz = {} THEN <<"n", FALSE, <<>>, 0>>
     ELSE <<"n", neg, SubSeq(ds, Min(nz), Max(nz)), e + Len(ds) - Max(nz)>>

LowerText(s) == [i \in DOMAIN s |-> Lower(s[i])]
INF  == <<105, 110, 102>>
INFI == <<105, 110, 102, 105, 110, 105, 116, 121>>
NANT == <<110, 97, 110>>

\* The number text s denotes as <<value>>, or <<>> if it is not a number.
ParseFloat(s, mode) ==
  LET t == Strip(s, LAMBDA c : Blank(mode, c)) IN
  IF t = <<>> THEN <<>> ELSE
  LET signed == t[1] \in {43, 45}
      neg == t[1] = 45
      body == LowerText(IF signed THEN SubSeq(t, 2, Len(t)) ELSE t)
      es == {i \in DOMAIN body : body[i] = 101}
      mant == IF es = {} THEN body ELSE SubSeq(body, 1, Min(es) - 1)
      etxt == IF es = {} THEN <<48>> ELSE SubSeq(body, Min(es) + 1, Len(body))
      esgn == Len(etxt) > 0 /\ etxt[1] \in {43, 45}
      edig == IF esgn THEN SubSeq(etxt, 2, Len(etxt)) ELSE etxt
      dots == {i \in DOMAIN mant : mant[i] = 46}
      ip == IF dots = {} THEN mant ELSE SubSeq(mant, 1, Min(dots) - 1)
      fp == IF dots = {} THEN <<>> ELSE SubSeq(mant, Min(dots) + 1, Len(mant))
      dig(x) == \A i \in DOMAIN x : IsDigit(x[i])
  IN IF body \in {INF, INFI} THEN << <<"inf", neg>> >>
     ELSE IF body = NANT THEN << <<"nan">> >>
     ELSE IF Cardinality(dots) <= 1 /\ dig(ip) /\ dig(fp) /\ Len(ip) + Len(fp) > 0
             /\ AllDigits(edig)
     THEN << NormNum(neg, ip \o fp,
                     (IF esgn /\ etxt[1] = 45 THEN -NatVal(edig) ELSE NatVal(edig)) - Len(fp)) >>
     ELSE <<>>

CommaFloat(s, mode) == ParseFloat(Replace(s, 44, 46), mode)

---------------------------------------------------------------------------
(* Bytes to text *)
Utf8(bs) ==
  LET step(acc, b) ==      \* acc: <<text, pending value, bytes to go>>
        IF acc[3] > 0 THEN LET v == acc[2] * 64 + (b - 128)
                           IN IF acc[3] = 1 THEN <<Append(acc[1], v), 0, 0>>
                              ELSE <<acc[1], v, acc[3] - 1>>
        ELSE IF b < 128 THEN <<Append(acc[1], b), 0, 0>>
        ELSE IF b < 224 THEN <<acc[1], b - 192, 1>>
        ELSE IF b < 240 THEN <<acc[1], b - 224, 2>>
        ELSE <<acc[1], b - 240, 3>>
  IN FoldLeft(step, <<<<>>, 0, 0>>, bs)[1]
Decode(bs, enc) == IF enc = "utf-8" THEN Utf8(bs) ELSE bs

---------------------------------------------------------------------------
(* Lines and fields *)
Lines(content) ==
  LET ls == SplitOn(content, <<10>>)
  IN IF ls[Len(ls)] = <<>> THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls

\* A line without the white space at its ends that is not the delimiter.
Trim(line, p) ==
  IF p.delim = <<>> THEN Strip(line, LAMBDA c : Blank(p.mode, c))
  ELSE LET d == p.delim[1]
           ws == <<32, 9, 10, 13, 11, 12>>
           keep == IF Occurrences(ws, d) = <<>> THEN {} ELSE {d[k] : k \in DOMAIN d}
       IN Strip(line, LAMBDA c : IsAsciiSpace(c) /\ c \notin keep)
Fields(line, p) ==
  LET t == Trim(line, p)
  IN IF p.delim = <<>> THEN Words(t, LAMBDA c : ~Blank(p.mode, c))
     ELSE SplitOn(t, p.delim[1])

---------------------------------------------------------------------------
(* What a field becomes *)
Tag(mode) == IF mode = "t" THEN "s" ELSE "b"
TextVal(f, p) == IF p.mode = "d" THEN <<"s", Decode(f, p.enc)>> ELSE <<Tag(p.mode), f>>
ERR == <<"err">>
OrErr(o) == IF o = <<>> THEN ERR ELSE o[1]

Kind(f, p) == IF ParseFloat(f, p.mode) # <<>> THEN "num"
              ELSE IF CommaFloat(f, p.mode) # <<>> THEN "com" ELSE "str"
\* Kinds of columns by the fields of the first line of data.
Kinds(first, p) ==
  LET k == [i \in DOMAIN first |-> Kind(first[i], p)]
      com == \E i \in DOMAIN k : k[i] = "com"
  IN [i \in DOMAIN k |-> IF com /\ k[i] = "num" THEN "com" ELSE k[i]]

Converters == {"len", "rev", "ident", "float", "comma"}
Conv(name, f, p) ==
  CASE name = "len"   -> NormNum(FALSE, NatDigits(Len(f)), 0)
    [] name = "rev"   -> <<Tag(p.mode), Reverse(f)>>
    [] name = "ident" -> <<Tag(p.mode), f>>
    [] name = "float" -> OrErr(ParseFloat(f, p.mode))
    [] name = "comma" -> IF f = <<>> THEN <<"nan">> ELSE OrErr(CommaFloat(f, p.mode))

ConvFor(p, c) == LET S == {i \in DOMAIN p.convs : p.convs[i][1] = c}
                 IN IF S = {} THEN "" ELSE p.convs[Max(S)][2]

Value(f, c, kind, p) ==
  LET cv == ConvFor(p, c) IN
  CASE cv # ""      -> Conv(cv, f, p)
    [] kind = "num" -> IF f = <<>> THEN <<"nan">> ELSE OrErr(ParseFloat(f, p.mode))
    [] kind = "com" -> IF f = <<>> THEN <<"nan">> ELSE OrErr(CommaFloat(f, p.mode))
    [] OTHER        -> TextVal(IF p.strip THEN Strip(f, LAMBDA x : Blank(p.mode, x)) ELSE f, p)

---------------------------------------------------------------------------
(* textpack *)
OK(data, names) == [st |-> "ok", data |-> data, names |-> names]
FAIL(what) == [st |-> what, data |-> <<>>, names |-> <<>>]

NoneGiven(o) == o = <<>> \/ o[1] = <<>>

ReadText(content, p) ==
  LET hasn == p.hasnames /\ NoneGiven(p.names)
      ls == Lines(content)
      skip == IF hasn THEN Max({p.skip - 1, 0}) ELSE p.skip
      rest == SubSeq(ls, skip + 1, Len(ls))
      header == IF hasn /\ rest # <<>> THEN Fields(rest[1], p) ELSE <<>>
      dls == SelectSeq(IF hasn THEN SubSeq(rest, 2, Len(rest)) ELSE rest,
                       LAMBDA l : Trim(l, p) # <<>>)
      rows == [i \in DOMAIN dls |-> Fields(dls[i], p)]
      nc == IF rows = <<>> THEN 0 ELSE Len(rows[1])
      kinds == IF rows = <<>> THEN <<>> ELSE Kinds(rows[1], p)
      cols == IF ~NoneGiven(p.names) THEN {p.names[1][i][1] : i \in DOMAIN p.names[1]}
              ELSE IF p.usecols # <<>> THEN {p.usecols[1][i] : i \in DOMAIN p.usecols[1]}
              ELSE 0..(nc - 1)
      used == SetToSortSeq(cols, <)
      \* columns of a row that carry a used field
      rowcols(r) == SelectSeq(used, LAMBDA c : c < Min({nc, Len(r)}))
      vals == [i \in DOMAIN rows |->
                LET rc == rowcols(rows[i])
                IN [j \in DOMAIN rc |-> Value(rows[i][rc[j]+1], rc[j], kinds[rc[j]+1], p)]]
      m == IF rows = <<>> THEN 0 ELSE Min({Len(vals[i]) : i \in DOMAIN vals})
      nm == SelectSeq(used, LAMBDA c : c < Min({Len(header), nc}))
      strip(f) == Strip(f, LAMBDA x : Blank(p.mode, x))
      names == IF ~NoneGiven(p.names) THEN [i \in DOMAIN p.names[1] |->
                                              <<p.names[1][i][1], <<"s", p.names[1][i][2]>>>>]
               ELSE [i \in DOMAIN nm |-> <<nm[i], TextVal(strip(header[nm[i]+1]), p)>>]
  IN IF \E i \in DOMAIN p.convs : p.convs[i][1] >= nc THEN FAIL("anyerr")
     ELSE IF \E i \in DOMAIN vals : \E j \in DOMAIN vals[i] : vals[i][j] = ERR
     THEN FAIL("ValueError")
     ELSE OK([j \in 1..m |-> <<used[j], [i \in DOMAIN rows |-> vals[i][j]]>>], names)

\* The number (from 1) of the last line read without failure when a field of
\* a line of data can not be converted: the line of data before it, or else
\* the last one of those that are skipped or hold the names.
LastRead(content, p) ==
  LET hasn == p.hasnames /\ NoneGiven(p.names)
      ls == Lines(content)
      top == IF hasn THEN Max({p.skip, 1}) ELSE p.skip
      nos == SelectSeq([i \in DOMAIN ls |-> i], LAMBDA i : i > top /\ Trim(ls[i], p) # <<>>)
      rows == [i \in DOMAIN nos |-> Fields(ls[nos[i]], p)]
      kinds == Kinds(rows[1], p)
      cols == IF ~NoneGiven(p.names) THEN {p.names[1][i][1] : i \in DOMAIN p.names[1]}
              ELSE IF p.usecols # <<>> THEN {p.usecols[1][i] : i \in DOMAIN p.usecols[1]}
              ELSE 0..(Len(rows[1]) - 1)
      bad == {i \in DOMAIN rows : \E c \in cols :
                c < Len(rows[i]) /\ c < Len(rows[1]) /\ Value(rows[i][c+1], c, kinds[c+1], p) = ERR}
  IN IF Min(bad) = 1 THEN top ELSE nos[Min(bad) - 1]
\* The number of columns the functions are shown for
Width(content, p) ==
  LET top == IF p.hasnames /\ NoneGiven(p.names) THEN Max({p.skip, 1}) ELSE p.skip
      ls == Lines(content)
      rows == SelectSeq(SubSeq(ls, top + 1, Len(ls)), LAMBDA l : Trim(l, p) # <<>>)
  IN IF rows = <<>> THEN 0 ELSE Len(Fields(rows[1], p))

---------------------------------------------------------------------------
(* Numbers in a line, as the number patterns with decimal point (dec = 46) *)
(* or decimal comma (dec = 44) find them.                                  *)
DigitsFrom(s, i) ==        \* first position at or after i which is no digit
  LET S == {k \in i..Len(s) : ~IsDigit(s[k])} IN IF S = {} THEN Len(s) + 1 ELSE Min(S)

\* Position after the number starting at i, 0 if none does.
NumEnd(s, i, dec) ==
  LET n == Len(s)
      b == IF s[i] \in {43, 45} THEN i + 1 ELSE i
      at(k) == IF k <= n THEN s[k] ELSE 0
      e1 == DigitsFrom(s, b)
      m == IF e1 > b THEN (IF at(e1) = dec THEN DigitsFrom(s, e1 + 1) ELSE e1)
           ELSE IF at(b) = dec /\ IsDigit(at(b + 1)) THEN DigitsFrom(s, b + 1)
           ELSE 0
      x == IF m > 0 /\ at(m) \in {69, 101}
           THEN IF IsDigit(at(m + 1)) THEN m + 1
                ELSE IF at(m + 1) \in {43, 45} /\ IsDigit(at(m + 2)) THEN m + 2 ELSE 0
           ELSE 0
  IN IF m = 0 THEN 0 ELSE IF x > 0 THEN DigitsFrom(s, x) ELSE m

\* Sequence of <<first, position after>> of the numbers in s.
Numbers(s, dec) ==
  FoldLeft(LAMBDA acc, i :
             IF acc # <<>> /\ i < acc[Len(acc)][2] THEN acc
             ELSE LET e == NumEnd(s, i, dec) IN IF e = 0 THEN acc ELSE Append(acc, <<i, e>>),
           <<>>, [i \in 1..Len(s) |-> i])

StripSp(s) == Strip(s, IsSpace)

\* What a line looks like: number of numbers, and what separates them.
Shape(s, dec) ==
  LET ns == Numbers(s, dec)
      gaps == [i \in 1..(Len(ns) - 1) |-> SubSeq(s, ns[i][2], ns[i+1][1] - 1)]
      gap(g) == IF StripSp(g) # <<>> THEN StripSp(g) ELSE g
      seps == IF \E i \in DOMAIN gaps : gaps[i] = <<>> THEN <<>>
              ELSE [i \in DOMAIN gaps |-> gap(gaps[i])]
  IN [num |-> [i \in DOMAIN ns |-> SubSeq(s, ns[i][1], ns[i][2] - 1)],
      seps |-> seps, n |-> Len(ns),
      pre |-> StripSp(IF ns = <<>> THEN s ELSE SubSeq(s, 1, ns[1][1] - 1)),
      post |-> StripSp(IF ns = <<>> THEN <<>> ELSE SubSeq(s, ns[Len(ns)][2], Len(s)))]
Seps(sh) == {sh.seps[i] : i \in DOMAIN sh.seps}

\* Parameters derived from the lines: <<>> if they do not end in separated
\* numbers, else <<record>>.
Preparse(alllines) ==
  LET nb == {i \in DOMAIN alllines : StripSp(alllines[i]) # <<>>} IN
  IF nb = {} THEN <<>> ELSE
  LET L == Max(nb)
      ls == SubSeq(alllines, 1, L)
      D == [i \in 1..L |-> Shape(ls[i], 46)]
      C == [i \in 1..L |-> Shape(ls[i], 44)]
      differ == {i \in 1..L : D[i].num # C[i].num \/ D[i].seps # C[i].seps}
      \* equally many numbers on the last line: the closest line where point
      \* and comma make a difference tells
      k == Max(differ)
      commas == /\ D[L].n = C[L].n /\ differ # {}
                /\ Len(FlattenSeq(C[k].num)) > Len(FlattenSeq(D[k].num))
                /\ C[k].n = C[L].n /\ Seps(C[k]) = Seps(C[L]) /\ C[k].pre = <<>>
      dot == D[L].n <= C[L].n /\ ~commas
      V == IF dot THEN D ELSE C
      kinds == IF V[L].n = 1 THEN 0 ELSE 1
      isdata(i) == Cardinality(Seps(V[i])) = kinds /\ (kinds = 1 \/ V[i].n > 0)
      stops == {i \in 1..L : ~isdata(i)}
      start == IF stops = {} THEN 0 ELSE Max(stops)
      n == V[L].n
      sep == IF kinds = 0 THEN <<>> ELSE <<V[L].seps[Len(V[L].seps)]>>
      indented == \E i \in (start + 1)..L : V[i].n = n /\ Len(ls[i]) > 0 /\ IsSpace(ls[i][1])
      delim == IF sep # <<>> /\ StripSp(sep[1]) = <<>> /\ indented THEN <<>> ELSE sep
      split(l) == IF delim = <<>> THEN SplitSpace(l)
                  ELSE LET fs == SplitOn(l, delim[1])
                           st == [i \in DOMAIN fs |-> StripSp(fs[i])]
                       IN SelectSeq(st, LAMBDA f : f # <<>>)
      heads == {i \in 1..start : LET fs == split(ls[i])
                                 IN Len(fs) = n /\ IsWord(fs[1][1])}
      names == IF heads = {} THEN <<>>
               ELSE LET fs == split(ls[Max(heads)])
                    IN [i \in 1..n |-> <<i - 1, fs[i]>>]
  IN IF Cardinality(Seps(V[L])) # kinds THEN <<>>
     ELSE IF kinds = 0 /\ (V[L].pre # <<>> \/ V[L].post # <<>>) THEN <<>>
     ELSE << [skip |-> start, delim |-> delim, names |-> names, n |-> n,
              comma |-> ~dot] >>

(* lazy_textpack: g is the set of the names of parameters given in p. *)
LazyRead(content, p, g, parselines) ==
  LET ls == Lines(content)
      firsts == SubSeq(ls, 1, Min({parselines, Len(ls)}))
      txt == IF p.mode = "t" THEN firsts
             ELSE [i \in DOMAIN firsts |-> Decode(firsts[i], p.enc)]
      d == Preparse(txt)
  IN IF d = <<>> THEN (IF g = {} THEN FAIL("ValueError") ELSE ReadText(content, p))
     ELSE LET r == d[1]
              keep(k) == "usecols" \notin g \/ "names" \in g
                         \/ \E i \in DOMAIN p.usecols[1] : p.usecols[1][i] = k
              dnames == SelectSeq(r.names, LAMBDA e : keep(e[1]))
          IN ReadText(content, [p EXCEPT
               !.skip = IF "skip" \in g THEN @ ELSE r.skip,
               !.delim = IF "delim" \in g THEN @ ELSE r.delim,
               !.names = IF "names" \in g THEN @ ELSE <<dnames>>,
               !.usecols = IF "usecols" \in g THEN @ ELSE <<[i \in 1..r.n |-> i - 1]>>,
               !.convs = IF "convs" \in g THEN @
                         ELSE IF r.comma THEN [i \in 1..r.n |-> <<i - 1, "comma">>] ELSE <<>>])

---------------------------------------------------------------------------
(* A plain table, the abstract thing lazy_textpack is meant to recover:    *)
(* header lines, then rows of number texts.                                *)
TableData(rows, comma) ==
  [j \in 1..Len(rows[1]) |->
     <<j - 1, [i \in DOMAIN rows |-> (IF comma THEN CommaFloat(rows[i][j], "t")
                                     ELSE ParseFloat(rows[i][j], "t"))[1]]>>]
\* The names by the closest header line that can be split in as many non
\* empty fields, sep <<>> for any white space.
TableNames(headers, sep, n) ==
  LET split(l) == IF sep = <<>> THEN SplitSpace(l)
                  ELSE LET fs == SplitOn(l, sep)
                           st == [i \in DOMAIN fs |-> StripSp(fs[i])]
                       IN SelectSeq(st, LAMBDA f : f # <<>>)
      ok == {i \in DOMAIN headers : LET fs == split(headers[i])
                                    IN Len(fs) = n /\ IsWord(fs[1][1])}
  IN IF ok = {} THEN <<>>
     ELSE LET fs == split(headers[Max(ok)]) IN [i \in 1..n |-> <<i - 1, <<"s", fs[i]>>>>]
=============================================================================

------------------------------- MODULE Extras -------------------------------
(***************************************************************************)
(* What an xls book holds besides cell values.  A book of spec/Biff.tla    *)
(* may also have                                                           *)
(*   names  the defined names, [n, sheet, toks]: the name, the sheet it    *)
(*          belongs to (0: the book) and its formula, a sequence of tokens *)
(*          in reverse Polish notation                                     *)
(*   links  the number of its references to sheets, own and others         *)
(* and its sheets may hold records <<"X", kind, bytes>>: comments, links,  *)
(* drawings, embedded charts (a stream of records nested in the sheet's),  *)
(* widths, views and so on.  None of it says anything about cells.         *)
(***************************************************************************)
EXTENDS Biff

BinaryOps == {"add", "sub", "mul", "div", "pow", "cat", "lt", "le", "eq", "ge", "gt", "ne", "isect", "list", "range"}
UnaryOps == {"uplus", "uminus", "percent", "paren"}
\* tokens that neither take nor give a value
Silent == {"space", "volatile", "goto", "choose", "memfunc"}
FixedArgs == [PI |-> 0, NOW |-> 0, SIN |-> 1, MOD |-> 2]

\* How many values a token takes; all but the silent ones give one.
Takes(t) == CASE t[1] \in BinaryOps -> 2
              [] t[1] \in UnaryOps \cup {"sum1"} -> 1
              [] t[1] = "func" -> IF t[2] \in DOMAIN FixedArgs THEN FixedArgs[t[2]] ELSE t[3]
              [] OTHER -> 0
\* The number of values on the stack after the tokens, -1 if some are missing
Stack(toks) ==
  FoldLeft(LAMBDA d, t : IF t[1] \in Silent THEN d
                         ELSE IF d < Takes(t) THEN -1000000 ELSE d - Takes(t) + 1, 0, toks)
\* A token only refers to what is there.
Refers(b, t) == CASE t[1] = "name" -> t[2] \in 1..Len(b.names)
                  [] t[1] \in {"ref3", "area3", "ref3err", "namex"} -> t[2] \in 0..(b.links - 1)
                  [] OTHER -> TRUE
NamesOK(b) == "names" \in DOMAIN b =>
  \A i \in DOMAIN b.names : LET t == b.names[i].toks
                            IN (t = <<>> \/ Stack(t) = 1) /\ \A k \in DOMAIN t : Refers(b, t[k])

\* The text of a formula follows it; nothing comes between them.
Between(rs, i) == \E j \in 1..(i - 1) : /\ rs[j][1] = "FORMULA" /\ rs[j][5][1] = "s"
                                        /\ \A k \in (j + 1)..(i - 1) : rs[k][1] # "STRING"
PlacesOK(b) == \A s \in DOMAIN b.sheets : \A i \in DOMAIN b.sheets[s][3] :
                 b.sheets[s][3][i][1] = "X" => ~Between(b.sheets[s][3], i)
ExtrasOK(b) == NamesOK(b) /\ PlacesOK(b)

\* The book without them
Unadorned(b) == [k \in DOMAIN b \ {"names", "links"} |->
             IF k # "sheets" THEN b[k]
             ELSE [s \in DOMAIN b.sheets |->
                    [b.sheets[s] EXCEPT ![3] = SelectSeq(b.sheets[s][3], LAMBDA r : r[1] # "X")]]]
SameData(b) == BiffBook(b) = BiffBook(Unadorned(b))

---------------------------------------------------------------------------
\* Expressions: <<"leaf", token>>, <<"op", token, expressions>>
RECURSIVE Polish(_)
Polish(e) == IF e[1] = "leaf" THEN <<e[2]>> ELSE FlattenSeq([i \in DOMAIN e[3] |-> Polish(e[3][i])]) \o <<e[2]>>
=============================================================================

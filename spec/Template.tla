------------------------------ MODULE Template ------------------------------
(* Expansion of syntax-quoted templates, as a machine that reads the template *)
(* left to right: Open/Close of a list, array, hash or dotted pair, a literal, *)
(* an unquoted expression (its value arrives as one item) and a splice (the    *)
(* elements of its value arrive).  Frames below the top hold what surrounds.   *)
EXTENDS Naturals, Sequences
Frame(k) == [ k |-> k, items |-> << >> ]
Start == [ stk |-> << Frame("top") >>, log |-> << >>, err |-> FALSE ]
Top(s) == s.stk[Len(s.stk)]
Give(s, vs) == [ s EXCEPT !.stk[Len(s.stk)].items = @ \o vs ]

IsList(v) == v[1] \in {"nil", "list"}
Elems(v) == IF v[1] = "nil" THEN << >> ELSE v[2]
ListOf(vs) == IF vs = << >> THEN <<"nil">> ELSE <<"list", vs>>

(* hash: later values of a key replace earlier ones, in the first one's place *)
RECURSIVE Pairs(_, _)
Pairs(items, acc) ==
  IF Len(items) < 2 THEN acc
  ELSE LET k == items[1] v == items[2]
           at == { i \in 1..Len(acc) : acc[i][1] = k }
           n == IF at = {} THEN Append(acc, << k, v >>) ELSE [ acc EXCEPT ![CHOOSE i \in at : TRUE] = << k, v >> ]
       IN Pairs(SubSeq(items, 3, Len(items)), n)

Dotted(items) ==
  LET t == items[Len(items)] h == SubSeq(items, 1, Len(items) - 1) IN
  IF IsList(t) THEN ListOf(h \o Elems(t))
  ELSE IF t[1] = "dotted" THEN <<"dotted", h \o t[2], t[3]>>
  ELSE IF h = << >> THEN t ELSE <<"dotted", h, t>>

Build(f) == CASE f.k = "list" -> ListOf(f.items)
              [] f.k = "arr"  -> <<"arr", f.items>>
              [] f.k = "hash" -> <<"hash", Pairs(f.items, << >>)>>
              [] f.k = "dot"  -> Dotted(f.items)

(* one token; env gives the value of every unquoted expression *)
Step(s, tok, env) ==
  CASE tok[1] = "open"  -> [ s EXCEPT !.stk = Append(@, Frame(tok[2])) ]
    [] tok[1] = "close" -> LET v == Build(Top(s)) IN Give([ s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1) ], << v >>)
    [] tok[1] = "lit"   -> Give(s, << tok[2] >>)
    [] tok[1] = "unq"   -> Give([ s EXCEPT !.log = Append(@, tok[2]) ], << env[tok[2]] >>)
    [] tok[1] = "spl"   -> LET v == env[tok[2]] l == [ s EXCEPT !.log = Append(@, tok[2]) ] IN
                           IF Len(s.stk) = 1 \/ ~ IsList(v) THEN [ l EXCEPT !.err = TRUE ] ELSE Give(l, Elems(v))

Complete(s) == ~ s.err /\ Len(s.stk) = 1 /\ Len(s.stk[1].items) = 1
Result(s) == s.stk[1].items[1]
=============================================================================

------------------------------- MODULE Core -------------------------------
(* Reference evaluator of the core language: a small-step machine with       *)
(* explicit control, continuation, environment frames and heap.  No tail     *)
(* call optimisation, no compilation, no operand stack: it is what the       *)
(* language means.  Used for C02, C03, C05, C09, C15, C16.                   *)
(*                                                                           *)
(* Values    <<"int",n>> <<"bool",0/1>> <<"str",s>> <<"char",n>> <<"sym",s>> *)
(*           <<"nil">> <<"list",seq>>  (immutable)                           *)
(*           <<"arr",a>> <<"hash",a>> <<"lazy",a>>  (heap address a)         *)
(*           <<"clo",node,env>> <<"bi",name>>                                *)
(* Control   <<"ev",node,env>>  <<"rt",value>>  <<"er",kind>>  <<"un">>      *)
(* "un": the program left the part of the language specified here; nothing   *)
(* is claimed about it from then on.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nil == << "nil" >>
I(n) == << "int", n >>
Bo(b) == << "bool", IF b THEN 1 ELSE 0 >>
Lst(s) == IF s = << >> THEN Nil ELSE << "list", s >>
Truthy(v) == CASE v[1] = "bool" -> v[2] = 1
               [] v[1] \in {"int", "char"} -> v[2] # 0
               [] v[1] = "nil" -> FALSE
               [] OTHER -> TRUE
Builtins == { "+", "-", "*", "/", "mod", "<", ">", "<=", ">=", "==", "!=", "not", "list", "cons", "first", "rest",
              "second", "array", "len", "append", "concat", "aget", "aset", "hash", "hget", "hset", "hdel", "keys",
              "map", "apply", "force", "substitute", "tr", "stop", "null?", "empty?", "eval", "car", "cdr", "list?",
              "array?", "hash?", "number?", "int?", "string?", "zero?", "func?", "char?", "symbol?", "float?", "type?",
              "str", "makeArray", "appendslice", "slice", "hpair", "sget" }
Big == 1000000000
Abs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE FindEnv(_, _, _)
FindEnv(st, e, n) == IF e = 0 THEN 0
                     ELSE IF n \in DOMAIN st[e].b THEN e
                     ELSE FindEnv(st, st[e].u, n)
\* (def x v) again in the same scope: both types known means they must agree
Ty(v) == IF v[1] \in {"int", "bool", "str", "char", "sym", "hash", "arr"} THEN v[1] ELSE "any"
DefOK(old, new) == Ty(old) = "any" \/ Ty(new) = "any" \/ Ty(old) = Ty(new)
DefUn(old, new) == Ty(old) = "arr" \/ Ty(new) = "arr"
Bind(st, e, n, v) == [st EXCEPT ![e] = [u |-> @.u, b |-> (n :> v) @@ @.b]]
NewFrame(st, up) == Append(st, [u |-> up, b |-> << >>])
RECURSIVE BindAll(_, _, _, _, _)
BindAll(st, e, ns, vs, i) == IF i > Len(ns) THEN st ELSE BindAll(Bind(st, e, ns[i], vs[i]), e, ns, vs, i + 1)

\* ---- primitive functions: <<"ok", value, heap>>, <<"er">> or <<"un">>
Ok(v, h) == << "ok", v, h >>
PEr == << "er" >>
PUn == << "un" >>
AllInt(a) == \A i \in 1..Len(a) : a[i][1] = "int"
RECURSIVE Fold(_, _, _, _)
Fold(op, acc, a, i) ==
  IF i > Len(a) THEN acc
  ELSE LET x == a[i][2]
           r == CASE op = "+" -> IF Abs(acc) < Big /\ Abs(x) < Big THEN acc + x ELSE 2 * Big
                  [] op = "-" -> IF Abs(acc) < Big /\ Abs(x) < Big THEN acc - x ELSE 2 * Big
                  [] op = "*" -> IF Abs(acc) < 30000 /\ Abs(x) < 30000 THEN acc * x ELSE 2 * Big
       IN IF r = 2 * Big THEN r ELSE Fold(op, r, a, i + 1)
Arith(op, a, h) ==
  IF Len(a) = 0 THEN PEr
  ELSE IF Len(a) = 1 THEN IF a[1][1] = "int" /\ op # "*" THEN Ok(a[1], h) ELSE PUn
  ELSE IF \E i \in 1..Len(a) : a[i][1] \in {"char", "lazy"} THEN PUn
  ELSE IF ~ AllInt(a) THEN PEr
  ELSE LET r == Fold(op, a[1][2], a, 2) IN IF r = 2 * Big THEN PUn ELSE Ok(I(r), h)
Divi(op, a, h) ==
  IF Len(a) # 2 THEN IF op = "mod" \/ Len(a) = 0 THEN PEr ELSE PUn
  ELSE IF \E i \in 1..2 : a[i][1] \in {"char", "lazy"} THEN PUn
  ELSE IF ~ AllInt(a) THEN PEr
  ELSE IF a[2][2] = 0 THEN PEr
  ELSE IF op = "mod" THEN IF a[1][2] >= 0 /\ a[2][2] > 0 THEN Ok(I(a[1][2] % a[2][2]), h) ELSE PUn
  ELSE IF Abs(a[1][2]) % Abs(a[2][2]) # 0 THEN PUn
  ELSE LET q == Abs(a[1][2]) \div Abs(a[2][2]) IN
       Ok(I(IF (a[1][2] < 0) = (a[2][2] < 0) THEN q ELSE -q), h)
Comp(op, a, h) ==
  IF Len(a) # 2 THEN PEr
  ELSE IF a[1][1] = "int" /\ a[2][1] = "int" THEN
       LET x == a[1][2] y == a[2][2] IN
       Ok(Bo(CASE op = "<" -> x < y [] op = ">" -> x > y [] op = "<=" -> x <= y [] op = ">=" -> x >= y
               [] op = "==" -> x = y [] op = "!=" -> x # y), h)
  ELSE IF op \in {"==", "!="} /\ a[1][1] = a[2][1] /\ a[1][1] \in {"str", "bool", "sym"}
       THEN Ok(Bo((a[1][2] = a[2][2]) = (op = "==")), h)
  ELSE PUn
KeyOK(v) == v[1] \in {"int", "str", "sym"}
HIdx(cell, k) == { i \in 1..Len(cell[2]) : cell[2][i] = k }
HSet(cell, k, v) == LET ix == HIdx(cell, k) IN
  IF ix = {} THEN << "hash", Append(cell[2], k), Append(cell[3], v) >>
  ELSE << "hash", cell[2], [cell[3] EXCEPT ![CHOOSE i \in ix : TRUE] = v] >>
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE Pairs(_, _, _)
Pairs(cell, a, i) == IF i > Len(a) THEN cell ELSE Pairs(HSet(cell, a[i], a[i + 1]), a, i + 2)
New(tag, cell, h) == Ok(<< tag, Len(h) + 1 >>, Append(h, cell))
RECURSIVE CatArr(_, _, _)
CatArr(a, h, i) == IF i > Len(a) THEN << >> ELSE h[a[i][2]][2] \o CatArr(a, h, i + 1)
RECURSIVE CatSeq(_, _)
CatSeq(a, i) == IF i > Len(a) THEN << >> ELSE a[i][2] \o CatSeq(a, i + 1)
RECURSIVE CatStr(_, _)
CatStr(a, i) == IF i > Len(a) THEN "" ELSE a[i][2] \o CatStr(a, i + 1)
All(a, t) == \A i \in 1..Len(a) : a[i][1] = t

\* how a value prints (scalars only)
PStr(v) == CASE v[1] = "int" -> ToString(v[2])
             [] v[1] = "bool" -> IF v[2] = 1 THEN "true" ELSE "false"
             [] v[1] = "nil" -> "nil"
             [] v[1] = "sym" -> v[2]
             [] OTHER -> "?"
RECURSIVE JoinStr(_, _)
JoinStr(q, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE " ") \o PStr(q[i]) \o JoinStr(q, i + 1)
Scalar(v) == v[1] \in {"int", "bool", "nil", "sym"}
Replicate(k, v) == [i \in 1..k |-> v]
Mark(h, a) == [h EXCEPT ![a] = << "arr", @[2], 1 >>]     \* shares storage with a view: not written to from here on
Fixed(h, a) == Len(h[a]) = 3
Num(n) == n \in {"list?", "array?", "hash?", "number?", "int?", "string?", "zero?", "func?", "char?", "symbol?", "float?"}
IsA(n, v) ==
  CASE n = "list?" -> v[1] \in {"list", "nil"}
    [] n = "array?" -> v[1] = "arr"
    [] n = "hash?" -> v[1] = "hash"
    [] n = "number?" -> v[1] \in {"int", "char"}
    [] n = "int?" -> v[1] = "int"
    [] n = "string?" -> v[1] = "str"
    [] n = "zero?" -> v[1] \in {"int", "char"} /\ v[2] = 0
    [] n = "func?" -> v[1] \in {"clo", "bi"}
    [] n = "char?" -> v[1] = "char"
    [] n = "symbol?" -> v[1] = "sym"
    [] OTHER -> FALSE

Prim(n, a, h) ==
  CASE n \in {"+", "-", "*"} -> Arith(n, a, h)
    [] n \in {"/", "mod"} -> Divi(n, a, h)
    [] n \in {"<", ">", "<=", ">=", "==", "!="} -> Comp(n, a, h)
    [] n = "not" -> IF Len(a) # 1 THEN PEr ELSE Ok(Bo(~ Truthy(a[1])), h)
    [] n = "list" -> Ok(Lst(a), h)
    [] n = "cons" -> IF Len(a) # 2 THEN PEr
                     ELSE IF a[2] = Nil THEN Ok(Lst(<< a[1] >>), h)
                     ELSE IF a[2][1] = "list" THEN Ok(Lst(<< a[1] >> \o a[2][2]), h) ELSE PUn
    [] n \in {"first", "rest", "second"} ->
         IF Len(a) # 1 THEN PEr
         ELSE IF a[1][1] = "list" THEN
              LET s == a[1][2] IN
              IF n = "first" THEN Ok(s[1], h)
              ELSE IF n = "rest" THEN Ok(Lst(Tail(s)), h)
              ELSE IF Len(s) > 1 THEN Ok(s[2], h) ELSE PEr
         ELSE IF n = "rest" /\ a[1] = Nil THEN Ok(Nil, h)
         ELSE IF n = "rest" /\ a[1][1] = "arr" THEN
              LET s == h[a[1][2]][2] IN
              IF s = << >> THEN Ok(a[1], h) ELSE New("arr", << "arr", Tail(s), 1 >>, Mark(h, a[1][2]))
         ELSE IF a[1][1] = "arr" THEN
              LET s == h[a[1][2]][2] k == IF n = "first" THEN 1 ELSE 2 IN
              IF Len(s) >= k THEN Ok(s[k], h) ELSE PEr
         ELSE PUn
    [] n = "car" -> IF Len(a) # 1 THEN PEr ELSE IF a[1][1] = "list" THEN Ok(a[1][2][1], h) ELSE PUn
    [] n = "cdr" -> IF Len(a) # 1 THEN PEr ELSE IF a[1][1] = "list" THEN Ok(Lst(Tail(a[1][2])), h)
                    ELSE IF a[1] = Nil THEN Ok(Nil, h) ELSE PUn
    [] Num(n) -> IF Len(a) # 1 THEN PEr ELSE Ok(Bo(IsA(n, a[1])), h)
    [] n = "type?" -> IF Len(a) # 1 THEN PEr
                      ELSE Ok(<< "str", CASE a[1][1] = "int" -> "int64" [] a[1][1] = "str" -> "string" [] a[1][1] = "arr" -> "array"
                                          [] a[1][1] = "sym" -> "symbol" [] a[1][1] \in {"clo", "bi"} -> "func"
                                          [] a[1][1] = "lazy" -> "lazyArg" [] OTHER -> a[1][1] >>, h)
    [] n = "str" -> IF Len(a) # 1 THEN PEr
                    ELSE IF Scalar(a[1]) THEN Ok(<< "str", PStr(a[1]) >>, h)
                    ELSE IF a[1][1] = "list" /\ \A i \in 1..Len(a[1][2]) : Scalar(a[1][2][i])
                         THEN Ok(<< "str", "(" \o JoinStr(a[1][2], 1) \o ")" >>, h)
                    ELSE IF a[1][1] = "arr" /\ \A i \in 1..Len(h[a[1][2]][2]) : Scalar(h[a[1][2]][2][i])
                         THEN Ok(<< "str", "[" \o JoinStr(h[a[1][2]][2], 1) \o "]" >>, h)
                    ELSE PUn
    [] n = "makeArray" -> IF Len(a) \notin {1, 2} THEN IF a = << >> THEN PEr ELSE PUn
                          ELSE IF a[1][1] # "int" THEN PEr
                          ELSE IF a[1][2] < 0 THEN PEr
                          ELSE IF a[1][2] > 20 THEN PUn
                          ELSE New("arr", << "arr", Replicate(a[1][2], IF Len(a) = 2 THEN a[2] ELSE Nil) >>, h)
    [] n = "appendslice" -> IF Len(a) # 2 THEN PEr
                            ELSE IF a[1][1] = "arr" THEN
                                 IF a[2][1] = "arr" THEN New("arr", << "arr", h[a[1][2]][2] \o h[a[2][2]][2] >>, h) ELSE PEr
                            ELSE IF a[1][1] = "str" THEN PUn ELSE PEr
    [] n = "slice" -> IF Len(a) # 3 THEN PEr
                      ELSE IF a[2][1] \in {"char"} \/ a[3][1] \in {"char"} THEN PUn
                      ELSE IF a[2][1] # "int" \/ a[3][1] # "int" THEN PEr
                      ELSE LET i == a[2][2] j == a[3][2] IN
                           IF a[1][1] = "arr" THEN
                              LET q == h[a[1][2]][2] IN
                              IF i < 0 \/ j < i THEN PEr
                              ELSE IF j > Len(q) THEN PUn
                              ELSE New("arr", << "arr", SubSeq(q, i + 1, j), 1 >>, Mark(h, a[1][2]))
                           ELSE IF a[1][1] = "str" THEN
                              IF i < 0 \/ j < i \/ j > Len(a[1][2]) THEN PEr
                              ELSE Ok(<< "str", SubSeq(a[1][2], i + 1, j) >>, h)
                           ELSE PEr
    [] n = "hpair" -> IF Len(a) # 2 THEN PEr
                      ELSE IF a[2][1] # "int" THEN PEr
                      ELSE LET i == a[2][2] IN
                           IF a[1][1] = "arr" THEN
                              LET q == h[a[1][2]][2] IN
                              IF i < 0 \/ i >= Len(q) THEN PEr ELSE Ok(<< "list", << I(i), q[i + 1] >> >>, h)
                           ELSE IF a[1][1] = "hash" THEN
                              LET cl == h[a[1][2]] IN
                              IF i < 0 \/ i >= Len(cl[2]) THEN PEr ELSE Ok(<< "list", << cl[2][i + 1], cl[3][i + 1] >> >>, h)
                           ELSE PEr
    [] n = "array" -> New("arr", << "arr", a >>, h)
    [] n = "len" -> IF Len(a) # 1 THEN PEr
                    ELSE CASE a[1][1] = "list" -> Ok(I(Len(a[1][2])), h)
                           [] a[1][1] = "arr" -> Ok(I(Len(h[a[1][2]][2])), h)
                           [] a[1][1] = "hash" -> Ok(I(Len(h[a[1][2]][2])), h)
                           [] a[1][1] = "nil" -> Ok(I(0), h)
                           [] a[1][1] = "str" -> Ok(I(Len(a[1][2])), h)
                           [] a[1][1] \in {"int", "bool"} -> PEr
                           [] OTHER -> PUn
    [] n = "append" -> IF Len(a) # 2 THEN PEr
                       ELSE IF a[1][1] = "arr" THEN New("arr", << "arr", Append(h[a[1][2]][2], a[2]) >>, h)
                       ELSE IF a[1][1] = "str" /\ a[2][1] = "str" THEN Ok(<< "str", a[1][2] \o a[2][2] >>, h)
                       ELSE IF a[1][1] \in {"int", "bool", "nil", "list", "hash"} THEN PEr ELSE PUn
    [] n = "concat" -> IF Len(a) = 0 THEN PEr
                       ELSE IF All(a, "arr") THEN New("arr", << "arr", CatArr(a, h, 1) >>, h)
                       ELSE IF All(a, "str") THEN Ok(<< "str", CatStr(a, 1) >>, h)
                       ELSE IF All(a, "list") THEN Ok(Lst(CatSeq(a, 1)), h)
                       ELSE PUn
    [] n = "aget" -> IF Len(a) \notin {2, 3} THEN PEr
                     ELSE IF a[1][1] # "arr" \/ a[2][1] # "int" THEN PUn
                     ELSE LET s == h[a[1][2]][2] i == a[2][2] IN
                          IF i >= 0 /\ i < Len(s) THEN Ok(s[i + 1], h)
                          ELSE IF Len(a) = 3 THEN Ok(a[3], h) ELSE PEr
    [] n = "aset" -> IF Len(a) # 3 THEN PEr
                     ELSE IF a[1][1] # "arr" \/ a[2][1] # "int" THEN PUn
                     ELSE IF Fixed(h, a[1][2]) THEN PUn
                     ELSE LET s == h[a[1][2]][2] i == a[2][2] IN
                          IF i >= 0 /\ i < Len(s) THEN Ok(Nil, [h EXCEPT ![a[1][2]] = << "arr", [s EXCEPT ![i + 1] = a[3]] >>])
                          ELSE PEr
    [] n = "hash" -> IF Len(a) % 2 # 0 THEN PEr
                     ELSE IF \E i \in 1..(Len(a) \div 2) : ~ KeyOK(a[2 * i - 1]) THEN PUn
                     ELSE New("hash", Pairs(<< "hash", << >>, << >> >>, a, 1), h)
    [] n = "hget" -> IF Len(a) \notin {2, 3} THEN PEr
                     ELSE IF a[1][1] # "hash" \/ ~ KeyOK(a[2]) THEN PUn
                     ELSE LET cell == h[a[1][2]] ix == HIdx(cell, a[2]) IN
                          IF ix # {} THEN Ok(cell[3][CHOOSE i \in ix : TRUE], h)
                          ELSE IF Len(a) = 3 THEN Ok(a[3], h) ELSE PEr
    [] n = "hset" -> IF Len(a) # 3 THEN PEr
                     ELSE IF a[1][1] # "hash" \/ ~ KeyOK(a[2]) THEN PUn
                     ELSE Ok(Nil, [h EXCEPT ![a[1][2]] = HSet(@, a[2], a[3])])
    [] n = "hdel" -> IF Len(a) # 2 THEN PEr
                     ELSE IF a[1][1] # "hash" \/ ~ KeyOK(a[2]) THEN PUn
                     ELSE LET cell == h[a[1][2]] ix == HIdx(cell, a[2]) IN
                          IF ix = {} THEN Ok(Nil, h)
                          ELSE LET i == CHOOSE i \in ix : TRUE IN
                               Ok(Nil, [h EXCEPT ![a[1][2]] = << "hash", Drop(cell[2], i), Drop(cell[3], i) >>])
    [] n = "keys" -> IF Len(a) # 1 THEN PEr
                     ELSE IF a[1][1] # "hash" THEN PUn
                     ELSE New("arr", << "arr", h[a[1][2]][2] >>, h)
    [] n = "null?" -> IF Len(a) # 1 THEN PEr ELSE Ok(Bo(a[1] = Nil), h)
    [] n = "empty?" -> IF Len(a) # 1 THEN PEr
                       ELSE CASE a[1][1] = "nil" -> Ok(Bo(TRUE), h)
                              [] a[1][1] \in {"arr", "hash"} -> Ok(Bo(h[a[1][2]][2] = << >>), h)
                              [] a[1][1] = "list" -> Ok(Bo(FALSE), h)
                              [] OTHER -> PUn
    [] n = "stop" -> PEr
    [] n = "substitute" -> IF Len(a) # 1 THEN PEr
                           ELSE IF a[1][1] # "lazy" THEN Ok(a[1], h)
                           ELSE LET th == h[a[1][2]] IN IF th[5] = << "none" >> THEN PUn ELSE Ok(th[5], h)
    [] OTHER -> PUn

\* what an observer sees of a value
RECURSIVE Snap(_, _)
Snap(v, h) ==
  CASE v[1] \in {"int", "bool", "str", "char", "sym", "nil"} -> v
    [] v[1] = "list" -> << "list", [i \in 1..Len(v[2]) |-> Snap(v[2][i], h)] >>
    [] v[1] = "arr" -> << "arr", LET s == h[v[2]][2] IN [i \in 1..Len(s) |-> Snap(s[i], h)] >>
    [] v[1] = "hash" -> << "hash", LET cl == h[v[2]] IN
                           [i \in 1..Len(cl[2]) |-> << Snap(cl[2][i], h), Snap(cl[3][i], h) >>] >>
    [] v[1] = "lazy" -> << "lazy" >>
    [] OTHER -> << "fn" >>

\* ---- the machine.  s = [c, k, st, h, t, ct, fa]; k is a linked list of frames
Ret(s, v) == [s EXCEPT !.c = << "rt", v >>]
Err(s, e) == [s EXCEPT !.c = << "er", e >>, !.k = << >>]
Und(s) == [s EXCEPT !.c = << "un" >>, !.k = << >>]
Ev(s, n, e) == [s EXCEPT !.c = << "ev", n, e >>]
EvP(s, n, e, f) == [s EXCEPT !.c = << "ev", n, e >>, !.k = << f, s.k >>]
\* operands of calls are compiled when they are evaluated: a malformed one fails then
Unit(P, s, n, e, f) == IF P[n].cb = 1 THEN Err(s, "other") ELSE EvP(s, n, e, f)
Body(s, a, i, e) == IF i > Len(a) THEN Ret(s, Nil)
                    ELSE IF i = Len(a) THEN Ev(s, a[i], e)
                    ELSE EvP(s, a[i], e, << "seq", a, i, e >>)
DefIn(s, e, n, v) ==
  LET b == s.st[e].b IN
  IF n \in DOMAIN b /\ DefUn(b[n], v) /\ ~ (Ty(b[n]) = "any" \/ Ty(v) = "any") THEN Und(s)
  ELSE IF n \in DOMAIN b /\ ~ DefOK(b[n], v) THEN Err(s, "other")
  ELSE [s EXCEPT !.st = Bind(@, e, n, v), !.c = << "rt", v >>]
SetIn(s, e, n, v) ==
  LET f == FindEnv(s.st, e, n) IN
  IF f # 0 THEN [s EXCEPT !.st = Bind(@, f, n, v), !.c = << "rt", v >>]
  ELSE IF n \in Builtins THEN Und(s)
  ELSE DefIn(s, e, n, v)

LazyAt(P, fv, i) == /\ fv[1] = "clo"
                    /\ i <= Len(P[fv[2]].ps)
                    /\ P[fv[2]].lz[i] = 1
RECURSIVE WrapLazy(_, _, _, _, _)
\* apply and map hand over values: a lazy formal receives an already forced thunk
WrapLazy(P, fv, vals, i, s) ==
  IF i > Len(vals) THEN << vals, s >>
  ELSE IF ~ LazyAt(P, fv, i) THEN WrapLazy(P, fv, vals, i + 1, s)
  ELSE LET h2 == Append(s.h, << "th", 0, 0, vals[i], vals[i] >>) IN
       WrapLazy(P, fv, [vals EXCEPT ![i] = << "lazy", Len(h2) >>], i + 1, [s EXCEPT !.h = h2])

Enter(P, s, fv, vals) ==
  LET N == P[fv[2]]
      nf == Len(N.ps)
      e == Len(s.st) + 1
      st1 == NewFrame(s.st, fv[3]) IN
  IF Len(vals) < nf \/ (N.rest = "" /\ Len(vals) > nf) THEN Err(s, "other")
  ELSE LET st2 == BindAll(st1, e, N.ps, vals, 1)
           st3 == IF N.rest = "" THEN st2 ELSE Bind(st2, e, N.rest, Lst(SubSeq(vals, nf + 1, Len(vals)))) IN
       Body([s EXCEPT !.st = st3], N.a, 1, e)

Elems(v, h) == IF v[1] = "arr" THEN h[v[2]][2] ELSE v[2]
\* a call of a primitive that does not re-enter the machine
CallPrim(s, n, vals) ==
  IF n = "tr" THEN
    LET s1 == [s EXCEPT !.t = Append(@, [i \in 1..Len(vals) |-> Snap(vals[i], s.h)]), !.ct = @ + 1] IN
    IF s1.fa # 0 /\ s1.ct = s1.fa THEN Err(s1, "inj")
    ELSE Ret(s1, IF vals = << >> THEN Nil ELSE vals[Len(vals)])
  ELSE LET r == Prim(n, vals, s.h) IN
       CASE r[1] = "ok" -> Ret([s EXCEPT !.h = r[3]], r[2])
         [] r[1] = "er" -> Err(s, "other")
         [] OTHER -> Und(s)
Reentrant == {"map", "apply", "force", "eval"}
\* map: the elements are read one by one (the mapped function may have changed a later one)
MapStep(P, s, fv, src, m, vals) ==
  LET i == Len(vals) + 1 IN
  IF i > m
  THEN IF src[1] = "arr" THEN LET r == New("arr", << "arr", vals >>, s.h) IN Ret([s EXCEPT !.h = r[3]], r[2])
       ELSE Ret(s, Lst(vals))
  ELSE LET s1 == [s EXCEPT !.k = << << "map", fv, src, m, vals >>, s.k >>]
           x == Elems(src, s.h)[i] IN
       IF fv[1] = "clo" THEN LET w == WrapLazy(P, fv, << x >>, 1, s1) IN Enter(P, w[2], fv, w[1])
       ELSE CallPrim(s1, fv[2], << x >>)
Apply(P, s, fv, vals) ==
  IF fv[1] = "clo" THEN Enter(P, s, fv, vals)
  ELSE LET n == fv[2] IN
  IF n \notin Reentrant THEN CallPrim(s, n, vals)
  ELSE CASE n = "force" ->
         IF Len(vals) # 1 THEN Err(s, "other")
         ELSE IF vals[1][1] # "lazy" THEN Ret(s, vals[1])
         ELSE LET th == s.h[vals[1][2]] IN
              IF th[2] = 0 THEN Ret(s, th[4])
              ELSE Unit(P, s, th[2], th[3], << "force", vals[1][2] >>)
    [] n = "map" ->
         IF Len(vals) # 2 \/ vals[1][1] \notin {"clo", "bi"} \/ vals[2][1] \notin {"arr", "list"} THEN Err(s, "other")
         ELSE IF vals[1][1] = "bi" /\ vals[1][2] \in Reentrant THEN Und(s)
         ELSE MapStep(P, s, vals[1], vals[2], Len(Elems(vals[2], s.h)), << >>)
    [] n = "apply" ->
         IF Len(vals) # 2 \/ vals[1][1] \notin {"clo", "bi"} \/ vals[2][1] \notin {"arr", "list"} THEN Err(s, "other")
         ELSE IF vals[1][1] = "bi" THEN IF vals[1][2] \in Reentrant THEN Und(s) ELSE CallPrim(s, vals[1][2], Elems(vals[2], s.h))
         ELSE LET w == WrapLazy(P, vals[1], Elems(vals[2], s.h), 1, s) IN Enter(P, w[2], vals[1], w[1])
    [] OTHER -> Und(s)

\* evaluate the operands from the i-th on, left to right, then apply
RECURSIVE Args(_, _, _, _, _, _)
Args(P, s, n, e, fv, vals) ==
  LET i == Len(vals) + 1 a == P[n].a IN
  IF i > Len(a) THEN Apply(P, s, fv, vals)
  ELSE IF LazyAt(P, fv, i)
  THEN LET h2 == Append(s.h, << "th", a[i], e, Nil, IF "d" \in DOMAIN P[a[i]] THEN P[a[i]].d ELSE << "none" >> >>) IN
       Args(P, [s EXCEPT !.h = h2], n, e, fv, Append(vals, << "lazy", Len(h2) >>))
  ELSE Unit(P, s, a[i], e, << "args", n, e, fv, vals >>)
Called(P, s, n, e, fv) ==
  IF fv[1] \in {"clo", "bi"} THEN Args(P, s, n, e, fv, << >>)
  ELSE IF fv[1] \in {"arr", "sym", "lazy"} THEN Und(s)
  ELSE IF P[n].a = << >> THEN Ret(s, fv)          \* (x) with a plain value x is that value
  ELSE Err(s, "other")

RECURSIVE Unwind(_, _)
Unwind(k, lab) == IF k = << >> THEN << >>
                  ELSE IF k[1][1] = "for" /\ (lab = "" \/ k[1][5] = lab) THEN k
                  ELSE Unwind(k[2], lab)

Eval(P, s, n, e) ==
  LET N == P[n] IN
  CASE N.k = "lit" -> Ret(s, N.v)
    [] N.k = "var" -> LET f == FindEnv(s.st, e, N.n) IN
                      IF f # 0 THEN Ret(s, s.st[f].b[N.n])
                      ELSE IF N.n \in Builtins THEN Ret(s, << "bi", N.n >>)
                      ELSE Err(s, "unbound " \o N.n)
    [] N.k = "call" -> Unit(P, s, N.f, e, << "callee", n, e >>)
    [] N.k = "arr" -> IF N.a = << >> THEN CallPrim(s, "array", << >>) ELSE EvP(s, N.a[1], e, << "arr", n, e, << >> >>)
    [] N.k = "def" -> EvP(s, N.e, e, << "def", N.n, e >>)
    [] N.k = "set" -> EvP(s, N.e, e, << "set", N.n, e >>)
    [] N.k = "mdef" -> EvP(s, N.e, e, << "mdef", N.ns, e >>)
    [] N.k = "begin" -> Body(s, N.a, 1, e)
    [] N.k = "scope" -> IF N.a = << >> THEN Ret(s, Nil)
                        ELSE Body([s EXCEPT !.st = NewFrame(@, e)], N.a, 1, Len(s.st) + 1)
    [] N.k \in {"let", "letseq"} ->
         LET s1 == [s EXCEPT !.st = NewFrame(@, e)] e1 == Len(s.st) + 1 IN
         IF N.es = << >> THEN Body(s1, N.a, 1, e1)
         ELSE EvP(s1, N.es[1], e1, << N.k, n, e1, << >> >>)
    [] N.k = "cond" -> IF Len(N.a) = 1 THEN Ev(s, N.a[1], e) ELSE EvP(s, N.a[1], e, << "cond", n, e, 1 >>)
    [] N.k \in {"and", "or"} -> IF Len(N.a) = 1 THEN Ev(s, N.a[1], e) ELSE EvP(s, N.a[1], e, << N.k, n, e, 1 >>)
    [] N.k = "for" -> EvP([s EXCEPT !.st = NewFrame(@, e)], N.init, Len(s.st) + 1, << "for", n, Len(s.st) + 1, "init", N.lab >>)
    [] N.k = "break" -> LET k2 == Unwind(s.k, N.lab) IN
                        IF k2 = << >> THEN Und(s) ELSE [s EXCEPT !.k = k2[2], !.c = << "rt", Nil >>]
    [] N.k = "continue" -> LET k2 == Unwind(s.k, N.lab) IN
                        IF k2 = << >> THEN Und(s)
                        ELSE LET f == k2[1] IN
                             EvP([s EXCEPT !.k = k2[2]], P[f[2]].incr, f[3], << "for", f[2], f[3], "incr", f[5] >>)
    [] N.k = "fn" -> Ret(s, << "clo", n, e >>)
    [] N.k = "defn" -> LET s1 == DefIn(s, e, N.n, << "clo", n, e >>) IN
                       IF s1.c[1] = "rt" THEN Ret(s1, Nil) ELSE s1
    [] N.k = "assert" -> EvP(s, N.e, e, << "assert" >>)
    [] N.k = "evalq" -> Unit(P, s, N.e, e, << "id" >>)     \* (eval (quote E))
    [] OTHER -> Und(s)

Resume(P, s, v) ==
  LET f == s.k[1]
      s1 == [s EXCEPT !.k = s.k[2]] IN
  CASE f[1] = "seq" -> Body(s1, f[2], f[3] + 1, f[4])
    [] f[1] = "id" -> Ret(s1, v)
    [] f[1] = "callee" -> Called(P, s1, f[2], f[3], v)
    [] f[1] = "args" -> Args(P, s1, f[2], f[3], f[4], Append(f[5], v))
    [] f[1] = "arr" -> LET vs == Append(f[4], v) a == P[f[2]].a IN
                       IF Len(vs) = Len(a) THEN CallPrim(s1, "array", vs)
                       ELSE EvP(s1, a[Len(vs) + 1], f[3], << "arr", f[2], f[3], vs >>)
    [] f[1] = "def" -> DefIn(s1, f[3], f[2], v)
    [] f[1] = "set" -> SetIn(s1, f[3], f[2], v)
    [] f[1] = "mdef" -> IF v[1] # "list" THEN (IF v[1] = "nil" THEN Err(s1, "other") ELSE Und(s1))
                        ELSE IF Len(v[2]) < Len(f[2]) THEN Err(s1, "other")
                        ELSE [s1 EXCEPT !.st = BindAll(@, f[3], f[2], v[2], 1), !.c = << "rt", v >>]
    [] f[1] = "let" -> LET vs == Append(f[4], v) N == P[f[2]] IN
                       IF Len(vs) < Len(N.es) THEN EvP(s1, N.es[Len(vs) + 1], f[3], << "let", f[2], f[3], vs >>)
                       ELSE Body([s1 EXCEPT !.st = BindAll(@, f[3], N.ns, vs, 1)], N.a, 1, f[3])
    [] f[1] = "letseq" -> LET i == Len(f[4]) + 1 N == P[f[2]]
                              s2 == DefIn(s1, f[3], N.ns[i], v) IN
                       IF s2.c[1] # "rt" THEN s2
                       ELSE IF i < Len(N.es) THEN EvP(s2, N.es[i + 1], f[3], << "letseq", f[2], f[3], Append(f[4], 0) >>)
                       ELSE Body(s2, N.a, 1, f[3])
    [] f[1] = "cond" -> LET a == P[f[2]].a i == f[4] IN
                        IF Truthy(v) THEN Ev(s1, a[i + 1], f[3])
                        ELSE IF i + 2 = Len(a) THEN Ev(s1, a[i + 2], f[3])
                        ELSE EvP(s1, a[i + 2], f[3], << "cond", f[2], f[3], i + 2 >>)
    [] f[1] \in {"and", "or"} -> LET a == P[f[2]].a i == f[4] IN
                        IF Truthy(v) = (f[1] = "or") THEN Ret(s1, v)
                        ELSE IF i + 1 = Len(a) THEN Ev(s1, a[i + 1], f[3])
                        ELSE EvP(s1, a[i + 1], f[3], << f[1], f[2], f[3], i + 1 >>)
    [] f[1] = "for" ->
         LET N == P[f[2]] fr(p) == << "for", f[2], f[3], p, f[5] >> IN
         CASE f[4] \in {"init", "incr"} -> EvP(s1, N.test, f[3], fr("test"))
           [] f[4] = "test" -> IF ~ Truthy(v) THEN Ret(s1, Nil)
                               ELSE IF N.a = << >> THEN EvP(s1, N.incr, f[3], fr("incr"))
                               ELSE Body([s1 EXCEPT !.k = << fr("body"), s1.k >>], N.a, 1, f[3])
           [] OTHER -> EvP(s1, N.incr, f[3], fr("incr"))
    [] f[1] = "assert" -> IF Truthy(v) THEN Ret(s1, Nil) ELSE Err(s1, "assert")
    [] f[1] = "force" -> Ret([s1 EXCEPT !.h = [@ EXCEPT ![f[2]] = << "th", 0, 0, v, @[5] >>]], v)
    [] f[1] = "map" -> MapStep(P, s1, f[2], f[3], f[4], Append(f[5], v))
    [] OTHER -> Und(s1)

Step(P, s) == IF s.c[1] = "ev" THEN Eval(P, s, s.c[2], s.c[3]) ELSE Resume(P, s, s.c[2])
\* a form is finished when it has failed, is out of scope of the spec, or returns to an empty continuation
FormDone(s) == s.c[1] \in {"er", "un"} \/ (s.c[1] = "rt" /\ s.k = << >>)
RECURSIVE Run(_, _, _)
Run(P, s, n) == IF n = 0 \/ FormDone(s) THEN s ELSE Run(P, Step(P, s), n - 1)
Outcome(s) == IF s.c[1] = "rt" THEN << "v", Snap(s.c[2], s.h) >>
              ELSE IF s.c[1] = "er" THEN << "e", s.c[2] >> ELSE << "u" >>
Start(fa) == [c |-> << "rt", Nil >>, k |-> << >>, st |-> << [u |-> 0, b |-> << >>] >>, h |-> << >>, t |-> << >>, ct |-> 0, fa |-> fa]
Load(P, s, n) == IF P[n].cb = 1 THEN [Err(s, "other") EXCEPT !.t = << >>]
                 ELSE [s EXCEPT !.c = << "ev", n, 1 >>, !.k = << >>, !.t = << >>]
=============================================================================

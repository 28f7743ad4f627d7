------------------------------- MODULE Infix --------------------------------
(* Infix blocks.  The tokens between the braces are Reader values; a block    *)
(* denotes a sequence of prefix forms (Reader values, too).                   *)
(*  Expr, Statements   a binding-power machine, the oracle for any tokens     *)
(*  Trees, Legal       the precedence table said declaratively: of all trees  *)
(*                     with the given tokens as their leaves, the legal one   *)
(* InfixGen shows that the two agree, and that there is one legal tree.       *)
EXTENDS Reader
KeptSymc(s) == << "sym", s, 1 >>
iEq == << 61 >>
iDef == << 58, 61 >>
iPlusEq == << 43, 61 >>
iMinusEq == << 45, 61 >>
iInc == << 43, 43 >>
iDec == << 45, 45 >>
iAnd == << 97, 110, 100 >>
iOr == << 111, 114 >>
iEE == << 61, 61 >>
iNE == << 33, 61 >>
iLt == << 60 >>
iLe == << 60, 61 >>
iGt == << 62 >>
iGe == << 62, 61 >>
iPlus == << 43 >>
iMinus == << 45 >>
iStar == << 42 >>
iSlash == << 47 >>
iMod == << 109, 111, 100 >>
iPow == << 42, 42 >>
iNot == << 110, 111, 116 >>
iIf == << 105, 102 >>
iElse == << 101, 108, 115, 101 >>
iBreak == << 98, 114, 101, 97, 107 >>
iContinue == << 99, 111, 110, 116, 105, 110, 117, 101 >>
iFor == << 102, 111, 114 >>
iSet == << 115, 101, 116 >>
iComma == << 99, 111, 109, 109, 97 >>
iCond == << 99, 111, 110, 100 >>
iIdx == << 97, 114, 114, 97, 121, 105, 100, 120 >>
iField == << 104, 97, 115, 104, 105, 100, 120 >>
iExpand == << 105, 110, 102, 105, 120, 69, 120, 112, 97, 110, 100 >>
\* the table: how strongly an operator binds to its left and to its right
Assign == {iEq, iDef, iPlusEq, iMinusEq}
Post == {iInc, iDec}
Logic == {iAnd, iOr}
Compare == {iEE, iNE, iLt, iLe, iGt, iGe}
Additive == {iPlus, iMinus}
Times == {iStar, iSlash, iMod}
Binary == Assign \cup Logic \cup Compare \cup Additive \cup Times \cup {iPow, iComma}
Level == [ o \in Binary \cup Post |->
             CASE o \in Assign \cup Post -> 10 [] o = iComma -> 15 [] o \in Logic -> 30 [] o \in Compare -> 40
               [] o \in Additive -> 50 [] o \in Times -> 60 [] o = iPow -> 65 ]
RightAssoc == Assign \cup Logic \cup {iPow}
LB(o) == Level[o]
RB(o) == IF o \in RightAssoc THEN Level[o] - 1 ELSE Level[o]
Prefixes == {iNot, iStar}
PreB == 70
SelB == 80
Head1(o) == Sym(IF o \in {iEq, iDef} THEN iSet ELSE o)
IsSym(t) == t[1] = "sym"
IsSel(t) == t[1] = "arr"
IsField(t) == IsSym(t) /\ Len(t[2]) > 1 /\ t[2][1] = cDot
IsBlock(t) == (t[1] = "list" /\ t[2][1] = Sym(sInfix)) \/ t = << "hash", << >> >>
Lbp(t) ==
  CASE IsSel(t) \/ IsField(t) -> SelB
    [] t[1] = "comma" -> LB(iComma)
    [] IsSym(t) /\ t[2] \in Binary \cup Post -> LB(t[2])
    [] OTHER -> 0
\* what cannot begin an expression: an operator without its operand and the like
Strange == (Binary \cup Post \cup {iElse, << cColon >>, << cDot >>, << 45, 62 >>}) \ Prefixes
Und == [s |-> "und", v |-> 0, n |-> 0]
RECURSIVE Expr(_, _, _), Nud(_, _), Led(_, _, _, _), Selector(_), BodyAt(_, _), Tails(_, _)
BodyAt(T, i) == IF i > Len(T) THEN 0 ELSE IF IsBlock(T[i]) THEN i ELSE BodyAt(T, i + 1)
ForLoop(T, i) == LET j == BodyAt(T, i) IN IF j = 0 THEN Und ELSE Ok(<< "any" >>, j + 1)
Nud(T, i) ==
  LET t == T[i] IN
  IF t[1] \in {"comma", "semi"} THEN Und
  ELSE IF ~ IsSym(t) THEN Ok(t, i + 1)
  ELSE CASE t[2] \in Prefixes -> LET r == Expr(T, i + 1, PreB) IN IF r.s = "ok" THEN Ok(<< "list", << t, r.v >> >>, r.n) ELSE r
    [] t[2] = iIf ->
         LET c == Expr(T, i + 1, 5) IN
         IF c.s # "ok" THEN c
         ELSE LET a == Expr(T, c.n, 0) IN
              IF a.s # "ok" THEN a
              ELSE IF a.n > Len(T) \/ ~ (IsSym(T[a.n]) /\ T[a.n][2] = iElse) THEN Ok(<< "list", << Sym(iCond), c.v, a.v, << "nil" >> >> >>, a.n)
              ELSE LET b == Expr(T, a.n + 1, 0) IN
                   IF b.s # "ok" THEN b ELSE Ok(<< "list", << Sym(iCond), c.v, a.v, b.v >> >>, b.n)
    [] t[2] \in {iBreak, iContinue} -> IF i + 1 <= Len(T) /\ IsSym(T[i + 1]) THEN Ok(<< "list", << t, T[i + 1] >> >>, i + 2) ELSE Ok(<< "list", << t >> >>, i + 1)
    [] t[2] = iFor -> ForLoop(T, i + 1)
    [] t[2] \in Strange \/ Len(t) > 2 -> Und
    [] OTHER -> Ok(t, i + 1)
Led(T, left, i, rbp) ==
  IF i > Len(T) THEN Ok(left, i)
  ELSE IF Lbp(T[i]) <= rbp THEN Ok(left, i)
  ELSE LET t == T[i] IN
  IF IsSel(t) THEN LET s == Selector(t) IN IF s.s # "ok" THEN s ELSE Led(T, << "list", << Sym(iIdx), left, s.v >> >>, i + 1, rbp)
  ELSE IF IsField(t) THEN Led(T, << "list", << Sym(iField), left, t >> >>, i + 1, rbp)
  ELSE LET o == IF t[1] = "comma" THEN iComma ELSE t[2] IN
       IF o \in Post THEN Led(T, << "list", << Sym(o), left >> >>, i + 1, rbp)
       ELSE LET r == Expr(T, i + 1, RB(o)) IN
            IF r.s # "ok" THEN r ELSE Led(T, << "list", << Head1(o), left, r.v >> >>, r.n, rbp)
Expr(T, i, rbp) ==
  IF i > Len(T) THEN Und
  ELSE LET a == Nud(T, i) IN IF a.s # "ok" THEN a ELSE Led(T, a.v, a.n, rbp)

\* what stands between the brackets of a[...]: a slice, an index expression, or
\* indexes one after the other
Tails(q, i) ==
  IF i > Len(q) THEN << >>
  ELSE (IF IsSym(q[i]) /\ Len(q[i]) > 2 THEN << Sym(q[i][2]), Sym(<< cColon >>) >> ELSE << q[i] >>) \o Tails(q, i + 1)
One(q) == IF q = << >> THEN Ok(<< >>, 1)
          ELSE LET r == Expr(q, 1, 0) IN IF r.s # "ok" \/ r.n <= Len(q) THEN Und ELSE Ok(<< r.v >>, r.n)
Selector(t) ==
  LET q == Tails(t[2], 1)
      colons == { i \in 1..Len(q) : q[i] = Sym(<< cColon >>) } IN
  IF \E i \in 1..Len(q) : q[i][1] = "comment" THEN Und
  ELSE IF colons # {} THEN
    IF \E i, j \in colons : i # j THEN Und
    ELSE LET k == CHOOSE i \in colons : TRUE
             a == One(SubSeq(q, 1, k - 1))
             b == One(Rest(q, k + 1)) IN
         IF a.s = "ok" /\ b.s = "ok" THEN Ok(<< "arr", a.v \o << Sym(<< cColon >>) >> \o b.v >>, 0) ELSE Und
  ELSE IF Len(q) <= 1 THEN Ok(<< "arr", q >>, 0)
  ELSE LET r == Expr(q, 1, 0) IN
       IF r.s # "ok" THEN Und ELSE Ok(<< "arr", IF r.n > Len(q) THEN << r.v >> ELSE q >>, 0)

\* a block: statements one after the other, semicolons between them
RECURSIVE StmtsFrom(_, _, _)
StmtsFrom(T, i, acc) ==
  IF i > Len(T) THEN Ok(acc, i)
  ELSE IF T[i][1] = "semi" THEN StmtsFrom(T, i + 1, acc)
  ELSE LET labelled == IsSym(T[i]) /\ Len(T[i]) > 2 /\ i < Len(T) /\ T[i + 1] = Sym(iFor)
           r == IF labelled THEN ForLoop(T, i + 2) ELSE Expr(T, i, 0) IN
       IF r.s # "ok" THEN r ELSE StmtsFrom(T, r.n, Append(acc, r.v))
NoComments(T) == SelectSeq(T, LAMBDA t : t[1] # "comment")
Statements(T) == StmtsFrom(NoComments(T), 1, << >>)
\* the tokens of a block that has been read
Block(v) == IF v[1] = "hash" \/ Len(v[2]) < 2 THEN << >> ELSE v[2][2][2]

\* ------------------------------------------------- the table, declaratively
\* (operators and operands only; a tree is <<kind, token, parts>>)
Kind(t) == IF t[1] = "comma" THEN "bin" ELSE IF IsSel(t) \/ IsField(t) THEN "sel"
           ELSE IF ~ IsSym(t) THEN "leaf" ELSE IF t[2] \in Post THEN "post" ELSE IF t[2] = iNot THEN "pre" ELSE IF t[2] \in Binary THEN "bin" ELSE "leaf"
Name(t) == IF t[1] = "comma" THEN iComma ELSE t[2]
RECURSIVE Trees(_, _, _), RightOpen(_, _), LeftOpen(_, _), Legal(_), Form(_)
Trees(T, i, j) ==
  IF i > j THEN {}
  ELSE (IF i = j /\ (Kind(T[i]) = "leaf" \/ IsSel(T[i])) THEN { << "leaf", T[i] >> } ELSE {})
       \cup (IF Kind(T[i]) = "pre" \/ (IsSym(T[i]) /\ T[i][2] = iStar) THEN { << "pre", T[i], x >> : x \in Trees(T, i + 1, j) } ELSE {})
       \cup (IF Kind(T[j]) \in {"post", "sel"} THEN { << Kind(T[j]), T[j], x >> : x \in Trees(T, i, j - 1) } ELSE {})
       \cup UNION { { << "bin", T[k], x, y >> : x \in Trees(T, i, k - 1), y \in Trees(T, k + 1, j) } : k \in { k \in i + 1 .. j - 1 : Kind(T[k]) = "bin" } }
LeftPower(x) == IF x[1] = "sel" THEN SelB ELSE LB(Name(x[2]))
RightPower(x) == IF x[1] = "pre" THEN PreB ELSE RB(Name(x[2]))
\* everything on the right edge of x leaves an operator of power b alone
RightOpen(x, b) == CASE x[1] \in {"leaf", "post", "sel"} -> TRUE
                     [] x[1] = "pre" -> RightPower(x) >= b /\ RightOpen(x[3], b)
                     [] x[1] = "bin" -> RightPower(x) >= b /\ RightOpen(x[4], b)
\* everything on the left edge of x binds more tightly than p
LeftOpen(x, p) == CASE x[1] \in {"leaf", "pre"} -> TRUE
                    [] x[1] \in {"bin", "post", "sel"} -> LeftPower(x) > p /\ LeftOpen(x[3], p)
Legal(x) == CASE x[1] = "leaf" -> TRUE
              [] x[1] = "pre" -> Legal(x[3]) /\ LeftOpen(x[3], PreB)
              [] x[1] \in {"post", "sel"} -> Legal(x[3]) /\ RightOpen(x[3], LeftPower(x))
              [] x[1] = "bin" -> Legal(x[3]) /\ Legal(x[4]) /\ RightOpen(x[3], LeftPower(x)) /\ LeftOpen(x[4], RightPower(x))
Form(x) == CASE x[1] = "leaf" -> x[2]
             [] x[1] = "pre" -> << "list", << x[2], Form(x[3]) >> >>
             [] x[1] = "post" -> << "list", << x[2], Form(x[3]) >> >>
             [] x[1] = "sel" -> << "list", IF IsSel(x[2]) THEN << Sym(iIdx), Form(x[3]), x[2] >> ELSE << Sym(iField), Form(x[3]), x[2] >> >>
             [] x[1] = "bin" -> << "list", << Head1(Name(x[2])), Form(x[3]), Form(x[4]) >> >>

\* a recorded form is the one the specification gives
RECURSIVE Match(_, _)
Match(v, r) ==
  CASE v[1] = "any" -> TRUE
    [] v[1] = "sym" -> r[1] = "sym" /\ v[2] = r[2]
    [] v[1] \in {"list", "arr"} -> r[1] = v[1] /\ Len(v[2]) = Len(r[2]) /\ \A i \in 1..Len(v[2]) : Match(v[2][i], r[2][i])
    [] v[1] = "dotted" -> r[1] = "dotted" /\ Len(v[2]) = Len(r[2]) /\ (\A i \in 1..Len(v[2]) : Match(v[2][i], r[2][i])) /\ Match(v[3], r[3])
    [] OTHER -> Same(v, r)
=============================================================================

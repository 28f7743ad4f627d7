------------------------------ MODULE Package ------------------------------
(* Packages: values with named members, reached from outside through dot      *)
(* paths.  A member is visible when its name begins with an upper case letter; *)
(* a nested package may be passed through and inspected under any name.  The   *)
(* functions defined inside use every member of their package.                 *)
EXTENDS Naturals, Sequences, FiniteSets
\* a node: <<"pkg", members>>, <<"hash", members>>, <<"val", n>>, <<"arr", n>>, <<"fun", what, ...>>
\* members: sequence of <<name, node number>>, a name being its code points
Upper(nm) == nm[1] \in 65..90 \cup {201, 916, 923, 1046}
Find(ms, nm) == LET Q == { i \in 1..Len(ms) : ms[i][1] = nm } IN IF Q = {} THEN 0 ELSE CHOOSE i \in Q : TRUE
NONE == 0
\* where a path leads: the number of a node; NONE if there is none or it may not
\* be seen.  h heap, n node, p the names that remain.
RECURSIVE Walk(_, _, _)
Walk(h, n, p) ==
  IF n = NONE THEN NONE
  ELSE IF p = << >> THEN n
  ELSE IF h[n][1] \notin {"pkg", "hash"} THEN NONE
  ELSE LET i == Find(h[n][2], p[1])
           t == IF i = 0 THEN NONE ELSE h[n][2][i][2] IN
       IF t = NONE THEN NONE
       ELSE IF h[n][1] = "pkg" /\ h[t][1] # "pkg" /\ ~ Upper(p[1]) THEN NONE
       ELSE Walk(h, t, SubSeq(p, 2, Len(p)))
Front1(p) == SubSeq(p, 1, Len(p) - 1)
\* may the path be assigned: a member of a package must exist and be visible,
\* whatever it holds now; a hash takes any key
Holder(h, n, p) == IF Len(p) = 0 THEN NONE ELSE Walk(h, n, Front1(p))
CanSet(h, n, p) == LET q == Holder(h, n, p)  nm == p[Len(p)] IN
  q # NONE /\ (h[q][1] = "hash" \/ (h[q][1] = "pkg" /\ Upper(nm) /\ Find(h[q][2], nm) # 0))
\* a new node for the member; the old one stays for those who hold it
Put(h, q, nm, node) ==
  LET i == Find(h[q][2], nm)  m == Len(h) + 1 IN
  [ (Append(h, node)) EXCEPT ![q] = << h[q][1], IF i = 0 THEN Append(h[q][2], << nm, m >>) ELSE [h[q][2] EXCEPT ![i] = << nm, m >>] >> ]
Member(h, q, nm) == h[q][2][Find(h[q][2], nm)][2]
Num(h, n) == IF n # NONE /\ h[n][1] \in {"val", "arr"} THEN << "val", h[n][2] >> ELSE << "err" >>
\* calling a node with the arguments as: << heap, result >>
\*   <<"fun", "const", n>>            gives n
\*   <<"fun", "read", package, name>> a member of a package it was defined in
\*   <<"fun", "write", package, name>> assigns its argument to one
\*   <<"fun", "dot", package, name, path>> reads through a path that begins at a member of one
\*   <<"fun", "call", package, name>> calls one
RECURSIVE Call(_, _, _)
Call(h, n, as) ==
  IF n = NONE THEN << h, << "err" >> >>
  ELSE IF h[n][1] = "val" /\ as = << >> THEN << h, << "maybe", h[n][2] >> >>     \* some ways to call a number give the number
  ELSE IF h[n][1] # "fun" THEN << h, << "err" >> >>
  ELSE LET f == h[n] IN
    IF Len(as) # (IF f[2] = "write" THEN 1 ELSE 0) THEN << h, << "err" >> >>
    ELSE CASE f[2] = "const" -> << h, << "val", f[3] >> >>
      [] f[2] = "read" -> << h, Num(h, Member(h, f[3], f[4])) >>
      [] f[2] = "write" -> << Put(h, f[3], f[4], << "val", as[1] >>), << "val", as[1] >> >>
      [] f[2] = "dot" -> << h, Num(h, Walk(h, Member(h, f[3], f[4]), f[5])) >>
      [] f[2] = "call" -> Call(h, Member(h, f[3], f[4]), << >>)
\* an operation from outside, o[2] the node its path begins at:
\*   get see idx hget call: a use of what the path leads to
\*   call1 set idxset hset: one with a number
\*   try: an attempt by other means to change what may not be changed
Apply(h, o) ==
  LET r == o[2]  p == o[3] IN
  CASE o[1] = "get" -> LET n == Walk(h, r, p) IN << h, IF n # NONE /\ h[n][1] = "val" THEN << "val", h[n][2] >> ELSE << "err" >> >>
    [] o[1] = "see" -> LET n == Walk(h, r, p) IN << h, IF n # NONE THEN << "kind", h[n][1] >> ELSE << "err" >> >>
    [] o[1] = "idx" -> LET n == Walk(h, r, p) IN << h, IF n # NONE /\ h[n][1] = "arr" THEN << "val", h[n][2] >> ELSE << "err" >> >>
    [] o[1] = "hget" -> LET q == Holder(h, r, p) IN << h, IF q # NONE /\ h[q][1] = "hash" /\ Find(h[q][2], p[Len(p)]) # 0 THEN LET n == Walk(h, r, p) IN IF h[n][1] = "val" THEN << "val", h[n][2] >> ELSE << "err" >> ELSE << "err" >> >>
    [] o[1] = "call" -> Call(h, Walk(h, r, p), << >>)
    [] o[1] = "call1" -> Call(h, Walk(h, r, p), << o[4] >>)
    [] o[1] = "idxset" -> LET n == Walk(h, r, p) IN IF n # NONE /\ h[n][1] = "arr" THEN << [h EXCEPT ![n] = << "arr", o[4] >>], << "ok" >> >> ELSE << h, << "err" >> >>
    [] o[1] = "set" -> IF CanSet(h, r, p) THEN << Put(h, Holder(h, r, p), p[Len(p)], << "val", o[4] >>), << "ok" >> >> ELSE << h, << "err" >> >>
    [] o[1] = "hset" -> LET q == Holder(h, r, p) IN IF q # NONE /\ h[q][1] = "hash" THEN << Put(h, q, p[Len(p)], << "val", o[4] >>), << "ok" >> >> ELSE << h, << "err" >> >>
    [] o[1] = "try" -> << h, << "any" >> >>
=============================================================================

------------------------------- MODULE Symtab -------------------------------
(* Symbol interning across a family of interpreters sharing one table (C19). *)
(* The contract: a set of (name, number) pairs that is a bijection; Make      *)
(* returns the pair of the name, adding one with an unused number when there  *)
(* is none; Gen adds a pair with an unused name and an unused number.         *)
EXTENDS Naturals, Integers, FiniteSets, Sequences

Names(tab) == { p[1] : p \in tab }
Nums(tab)  == { p[2] : p \in tab }
Bijective(tab) == \A p, q \in tab : (p[1] = q[1]) <=> (p[2] = q[2])

\* a symbol <<name, num>> handed out for an interning request of `name`
MakeOK(tab, want, name, num) ==
  /\ name = want
  /\ IF name \in Names(tab) THEN << name, num >> \in tab
                            ELSE num \notin Nums(tab)
\* a symbol handed out as freshly generated
GenOK(tab, name, num) == name \notin Names(tab) /\ num \notin Nums(tab)
Add(tab, name, num) == tab \cup { << name, num >> }

(* The mechanism: every interpreter has its own counter, copied when the      *)
(* family grows; interning skips the numbers others have used meanwhile and   *)
(* generation skips the names somebody interned before.                       *)
RECURSIVE FreeNum(_, _)
FreeNum(tab, n) == IF n \in Nums(tab) THEN FreeNum(tab, n + 1) ELSE n
RECURSIVE FreeName(_, _, _)
FreeName(tab, gname(_), n) == IF gname(n) \in Names(tab) THEN FreeName(tab, gname, n + 1) ELSE n
=============================================================================

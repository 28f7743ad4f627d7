-------------------------------- MODULE Runs --------------------------------
(* What a run of a program may depend on (C20).  A process holds interpreters; *)
(* an interpreter holds tables kept in Go maps.  A walk over a Go map takes    *)
(* the entries in an order of its own every time.  Of all this a program sees  *)
(* nothing: a walk whose order can be seen takes the entries in the order of   *)
(* insertion or sorts them, numbers are given out per interpreter, and an      *)
(* error text holds no address.                                                *)
(*                                                                             *)
(* The constants say how an implementation does it; with all of them TRUE TLC  *)
(* shows Deterministic in every history, and with any of them FALSE it must    *)
(* find a history that breaks it (bin/check runs all four).                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Names,        \* keys of tables
          Ordered,      \* walks are ordered before they are seen
          Own,          \* numbers are given out per interpreter
          Textual,      \* texts hold what a value is, not where it is
          MaxMade, MaxRuns
VARIABLES made,         \* interpreters made so far in this process, running included
          counter,      \* what the process would number next
          heap,         \* where the next value goes
          obs,          \* program -> what its runs showed
          runs
vars == <<made, counter, heap, obs, runs>>

Kinds == {"walk", "count", "text", "firstbad"}
Programs == [kind: Kinds, keys: (SUBSET Names) \ {{}}]

RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(S \ {x})} : x \in S}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Walks(S) == IF Ordered THEN {Sorted(S)} ELSE Perms(S)

\* what a run of p can show now
Shows(p) == CASE p.kind = "walk"     -> Walks(p.keys)
              [] p.kind = "firstbad" -> {<<w[1]>> : w \in Walks(p.keys)}          \* the error names the first of several
              [] p.kind = "count"    -> {<<(IF Own THEN 0 ELSE counter) + Cardinality(p.keys)>>}
              [] OTHER               -> {<<(IF Textual THEN 0 ELSE heap), Cardinality(p.keys)>>}

Init == made = 0 /\ counter = 0 /\ heap = 0 /\ obs = [p \in Programs |-> {}] /\ runs = 0
Process == made' = 0 /\ counter' = 0 /\ heap' = 0 /\ UNCHANGED <<obs, runs>>
Make    == made < MaxMade /\ made' = made + 1 /\ counter' = counter + 1 /\ heap' = heap + 1 /\ UNCHANGED <<obs, runs>>
Run(p)  == /\ made > 0 /\ runs < MaxRuns /\ runs' = runs + 1
           /\ \E o \in Shows(p) : obs' = [obs EXCEPT ![p] = @ \cup {o}]
           /\ heap' = heap + 1 /\ counter' = counter + Cardinality(p.keys)
           /\ made' = 0                                     \* an interpreter runs one program; the next is made anew
Next == Process \/ Make \/ \E p \in Programs : Run(p)
Spec == Init /\ [][Next]_vars
Deterministic == \A p \in Programs : Cardinality(obs[p]) <= 1
Bound == counter <= 6 /\ heap <= 4
=============================================================================

----------------------------- MODULE PackageGen -----------------------------
(* Every short path through a package with nested packages and hashes, used in *)
(* every way from outside.  What is private is never learnt nor changed except  *)
(* by the package's own functions.                                             *)
EXTENDS Package, TLC, Json, IOUtils, SequencesExt
V == << 86 >>  v == << 118 >>  F == << 70 >>  f == << 102 >>  H == << 72 >>  g == << 104 >>  P == << 80 >>  p == << 112 >>  X == << 88 >>  x == << 120 >>
R == << 82 >>  S == << 83 >>  A == << 65 >>  a == << 97 >>  K == << 75 >>  L == << 76 >>
Heap0 == <<
 << "pkg", << << V, 2 >>, << v, 3 >>, << F, 4 >>, << f, 5 >>, << H, 6 >>, << g, 8 >>, << P, 10 >>, << p, 17 >>, << R, 24 >>, << S, 25 >>, << A, 26 >>, << a, 27 >>, << K, 36 >>, << L, 37 >> >> >>,   \* 1
 << "val", 102 >>, << "val", 103 >>, << "fun", "const", 104 >>, << "fun", "const", 105 >>,
 << "hash", << << V, 28 >>, << H, 7 >>, << P, 30 >> >> >>,  << "hash", << << V, 29 >> >> >>,             \* 6 7
 << "hash", << << V, 9 >> >> >>, << "val", 109 >>,                                                     \* 8 9
 << "pkg", << << V, 11 >>, << v, 12 >>, << F, 13 >>, << f, 14 >>, << H, 15 >>, << R, 33 >> >> >>,       \* 10
 << "val", 111 >>, << "val", 112 >>, << "fun", "const", 113 >>, << "fun", "const", 114 >>, << "hash", << << V, 16 >> >> >>, << "val", 116 >>,
 << "pkg", << << V, 18 >>, << v, 19 >>, << F, 20 >>, << H, 21 >>, << g, 22 >>, << S, 34 >> >> >>,       \* 17
 << "val", 118 >>, << "val", 119 >>, << "fun", "const", 120 >>, << "hash", << << V, 23 >> >> >>, << "hash", << << V, 31 >> >> >>, << "val", 123 >>,
 << "fun", "read", 1, v >>, << "fun", "write", 1, v >>, << "arr", 126 >>, << "arr", 127 >>, << "val", 128 >>, << "val", 129 >>,   \* 24..29
 << "pkg", << << V, 32 >>, << v, 35 >> >> >>, << "val", 131 >>, << "val", 132 >>, << "fun", "read", 10, v >>, << "fun", "write", 17, v >>, << "val", 135 >>,   \* 30..35
 << "fun", "dot", 1, p, << v >> >>, << "fun", "call", 1, f >> >>   \* 36 37: one may not, one may
\* the values of what is private
Private == {103, 105, 109, 112, 114, 119, 127, 131, 135}
Own == { << 1, v >>, << 10, v >>, << 17, v >> }
Names == {V, v, F, f, H, g, P, p, R, S, A, a, K, L, X}
Paths == { << i >> : i \in Names } \cup { << i, j >> : i \in {H, g, P, p, V, F}, j \in {V, v, F, f, H, g, P, p, R, S, X} }
         \cup { << i, j, k >> : i \in {H, P, p, g}, j \in {H, g, P}, k \in {V, v, X, P, H} }
         \cup { << H, P, v, V >>, << P, H, V, V >>, << p, H, V, V >>, << H, H, H, V >> }
Roots == {1}
OpsOn(r) == { << o, r, q >> : o \in {"get", "see", "idx", "hget", "call"}, q \in Paths } \cup { << o, r, q, 7 >> : o \in {"set", "idxset", "hset", "call1"}, q \in Paths }
Ops == OpsOn(1)
OUT == IOEnv.ZV_OUT = "" \/ LET q == SetToSeq(Ops) IN ndJsonSerialize(IOEnv.ZV_OUT, << << "heap", Heap0 >> >> \o [ i \in 1..Len(q) |-> << "op", q[i] >> ])
ASSUME OUT
VARIABLES heap, last, res, n
vars == << heap, last, res, n >>
Init == heap = Heap0 /\ last = << "none" >> /\ res = << "ok" >> /\ n = 0
Next == n < 2 /\ \E o \in Ops : LET z == Apply(heap, o) IN heap' = z[1] /\ last' = o /\ res' = z[2] /\ n' = n + 1
Spec == Init /\ [][Next]_vars
\* a private value is only learnt from a function of the package
Secret == res[1] = "val" /\ res[2] \in Private => last[1] \in {"call", "call1"} /\ LET w == Walk(Heap0, 1, last[3]) IN w # NONE /\ Heap0[w][1] = "fun" /\ (Heap0[w][2] = "read" \/ w = 37)
\* and what a private name stands for is only changed by one
Kept == [][ /\ heap'[27] = heap[27]
           /\ \A r \in 1..Len(Heap0) : Heap0[r][1] = "pkg" => \A i \in 1..Len(Heap0[r][2]) :
                Upper(Heap0[r][2][i][1]) \/ heap'[r][2][i] = heap[r][2][i] \/ (last'[1] \in {"call", "call1"} /\ << r, Heap0[r][2][i][1] >> \in Own) ]_vars
\* what is public can be read
Open == \A nm \in {V, H, F, A} : Walk(heap, 1, << nm >>) # NONE
=============================================================================

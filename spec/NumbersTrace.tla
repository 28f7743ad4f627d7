---------------------------- MODULE NumbersTrace ----------------------------
(* Operand pairs evaluated by the real interpreter: every comparison and      *)
(* every arithmetic result against the contract.                              *)
EXTENDS Numbers, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<< c, done >>
K == Cases[c]
BadCmp == IF ~ Ordered(K.a, K.b) THEN {}
          ELSE LET o == Order(K.a, K.b) IN
               { n \in 1..Len(K.cmp) : K.cmp[n][2][1] # "bool" \/ (K.cmp[n][2][2] = 1) # Truth(K.cmp[n][1], o) }
BadArith == { n \in 1..Len(K.arith) : ~ ArithOK(K.arith[n][1], K.a, K.b, K.arith[n][2]) }
Bad == { K.cmp[n][1] : n \in BadCmp } \cup { K.arith[n][1] : n \in BadArith }
Check == done => LET b == Bad IN b # {} => PrintT(<< "BAD", c, b >>)
=============================================================================

------------------------------ MODULE InfixGen ------------------------------
(* Every sequence of operators and operands up to a length: the machine and   *)
(* the declarative reading of the table give the same, single tree.           *)
EXTENDS Infix, TLC, Json, IOUtils, FiniteSets
CONSTANTS N, All
A == Sym(<< 97 >>)
Ops == IF All THEN { Sym(o) : o \in Binary \ {iComma} } \cup { << "comma" >> }
       ELSE { Sym(o) : o \in {iEq, iPlusEq, iAnd, iOr, iEE, iLt, iMinus, iPlus, iStar, iMod, iPow} } \cup { << "comma" >> }
Afters == { Sym(o) : o \in Post } \cup { << "arr", << << "int", 0, Zero >> >> >>, Sym(<< cDot, 98 >>) }
Pres == { Sym(o) : o \in Prefixes }
VARIABLES T, want
Init == T = << >> /\ want = TRUE
Next == /\ Len(T) < N
        /\ \/ want /\ T' = Append(T, A) /\ want' = FALSE
           \/ want /\ (\E p \in Pres : T' = Append(T, p) /\ want' = TRUE)
           \/ ~ want /\ (\E o \in Ops : T' = Append(T, o) /\ want' = TRUE) 
           \/ ~ want /\ (\E o \in Afters : T' = Append(T, o) /\ want' = FALSE)
Spec == Init /\ [][Next]_<< T, want >>
Unique == want \/
  LET L == { x \in Trees(T, 1, Len(T)) : Legal(x) }
      m == Expr(T, 1, 0) IN
  Cardinality(L) = 1 /\ m.s = "ok" /\ m.n = Len(T) + 1 /\ m.v = Form(CHOOSE x \in L : TRUE)
=============================================================================

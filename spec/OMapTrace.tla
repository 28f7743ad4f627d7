----------------------------- MODULE OMapTrace ------------------------------
(* Trace validation: what the real hash showed after every operation of a    *)
(* recorded history against the contract.  Each case is an initial state.    *)
EXTENDS OMap, TLC, FiniteSets, Json, IOUtils
Universes == ndJsonDeserialize(IOEnv.ZV_UNIV)
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
VARIABLES c, i, m
Init == c \in 1..Len(Cases) /\ i = 0 /\ m = ApplyAll(Empty, Universes[Cases[c].u], Cases[c].ctor)
U == Universes[Cases[c].u]
Steps == Cases[c].steps
Next == /\ i < Len(Steps)
        /\ i' = i + 1
        /\ c' = c
        /\ m' = Apply(m, U, Steps[i + 1].op)
Spec == Init /\ [][Next]_<< c, i, m >>
Bad(o) ==
  LET v == View(m, U) e == EncView(m) IN
  { f \in DOMAIN v : o[f] # v[f] }
  \cup (IF U.enc THEN { f \in DOMAIN e : o[f] # e[f] } ELSE {})
  \cup (IF o.op.name # "del" /\ o.operr THEN {"operr"} ELSE {})
Check == i > 0 => LET b == Bad(Steps[i]) IN
           b # {} => PrintT(<<"BAD", c, i, b>>)
Fine == WellFormed(m)
=============================================================================

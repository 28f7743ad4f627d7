----------------------------- MODULE CoreTrace -----------------------------
(* Programs run by the real interpreter, one form after the other in one      *)
(* session; the machine runs them too, and every form's outcome and effects   *)
(* are compared.                                                              *)
EXTENDS Core, Json, IOUtils
CONSTANTS Chunk, MaxSteps
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
VARIABLES c, f, s, n, bad
vars == << c, f, s, n, bad >>
K == Cases[c]
Init == /\ c \in 1..Len(Cases) /\ f = 0 /\ n = 0 /\ bad = FALSE
        /\ s = Start(Cases[c].fa)
Next ==
  /\ ~ bad
  /\ IF FormDone(s)
     THEN /\ f < Len(K.forms)
          /\ s.c[1] # "un"
          /\ f' = f + 1 /\ s' = Load(K.nodes, s, K.forms[f + 1]) /\ n' = n /\ UNCHANGED << c, bad >>
     ELSE /\ n < MaxSteps
          /\ s' = Run(K.nodes, s, Chunk) /\ n' = n + Chunk /\ UNCHANGED << c, f >>
          /\ bad' = (FormDone(s') /\ s'.c[1] # "un" /\ f > 0 /\ K.chk = 1 /\ (Outcome(s') # K.out[f] \/ s'.t # K.tr[f]))
Spec == Init /\ [][Next]_vars
\* reported once per case: the failing form
Check == /\ bad => PrintT(<< "BAD", c, f, << Outcome(s), s.t >> >>)
         /\ (FormDone(s) /\ f = Len(K.forms) /\ s.c[1] # "un" /\ ~ bad) => PrintT(<< "OK", c >>)
=============================================================================

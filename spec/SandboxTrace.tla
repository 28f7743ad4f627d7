--------------------------- MODULE SandboxTrace ---------------------------
(* Recorded runs of a sandboxed interpreter: [world, runs: <<[after, said]>>] *)
(* and after each the contract of Sandbox: the world is as it was and nothing *)
(* of it is in what the script said.                                          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES c, i, world, ok
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
S == INSTANCE Sandbox WITH Fault <- "none", cfg <- "bare", learned <- {}, held <- {}
Said(r) == {r.said[k] : k \in 1..Len(r.said)}
Init == c \in 1..Len(Cases) /\ i = 0 /\ world = Cases[c].world /\ ok = TRUE
Next == /\ i < Len(Cases[c].runs) /\ i' = i + 1
        /\ LET r == Cases[c].runs[i + 1] IN
             world' = r.after /\ ok' = S!Quiet(world, r.after, Said(r))
        /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, i, world, ok>>
Check == ok \/ PrintT(<<"BAD", c, i>>)
=============================================================================

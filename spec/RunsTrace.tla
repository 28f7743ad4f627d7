------------------------------ MODULE RunsTrace ------------------------------
(* Recorded runs, program by program: [prog, runs: <<[proc, pos, obs]>>].  The *)
(* contract of Runs is that there is a function from programs to what is seen: *)
(* the first run gives its value and every later one has to agree.  Several    *)
(* checks may know what is seen (want): then it is that.                       *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES c, i, sees, ok
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
Runs(k) == Cases[k].runs
Init == c \in 1..Len(Cases) /\ i = 0 /\ sees = "" /\ ok = TRUE
Next == /\ ok /\ i < Len(Runs(c)) /\ i' = i + 1
        /\ LET e == Runs(c)[i + 1] IN
             IF sees = "" THEN sees' = e.obs /\ ok' = TRUE
             ELSE sees' = sees /\ ok' = (e.obs = sees)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, i, sees, ok>>
Check == ok \/ PrintT(<<"BAD", c, i>>)
=============================================================================

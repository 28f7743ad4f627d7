----------------------------- MODULE HostTrace -----------------------------
(* Recorded histories of calls: each a sequence of events, which the         *)
(* protocol of Host must accept and which must leave it idle.                *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES c, i, st
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
H == INSTANCE Host WITH Missing <- <<"none", "none">>, at <- 0, depth <- 0, spin <- 0, used <- 0, hist <- <<>>, st <- st
Runs(k) == Cases[k].runs
Init == c \in 1..Len(Cases) /\ i = 0 /\ st = "idle"
Next == /\ i < Len(Runs(c)) /\ i' = i + 1
        /\ st' = H!Run("idle", Runs(c)[i + 1])
        /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, i, st>>
Check == st = "idle" \/ PrintT(<<"BAD", c, i>>)
=============================================================================

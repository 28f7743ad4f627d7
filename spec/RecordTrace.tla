----------------------------- MODULE RecordTrace -----------------------------
(* Recorded sessions: each operation, whether it was refused, and what every  *)
(* instance held afterwards.                                                  *)
EXTENDS Record, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
VARIABLES c, i, s, bad
vars == << c, i, s, bad >>
Init == c \in 1..Len(Cases) /\ i = 1 /\ s = Start /\ bad = 0
Next == /\ i <= Len(Cases[c]) /\ bad = 0
        /\ LET x == Cases[c][i]  r == Do(s, x[1]) IN
           IF r[2] = "stop" THEN s' = s /\ bad' = -1
           ELSE /\ s' = r[1]
                /\ bad' = IF (r[2] = "any" \/ r[2] = x[2]) /\ Seen(r[1], x[3]) THEN 0 ELSE i
        /\ i' = i + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Check == bad > 0 => PrintT(<< "BAD", c, bad, s, [ j \in 1..Len(s.slots) |-> IF s.slots[j] = 0 THEN << >> ELSE Tree(s, << "inst", s.slots[j] >>) ] >>)
=============================================================================

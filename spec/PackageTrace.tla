---------------------------- MODULE PackageTrace ----------------------------
(* Recorded sessions: the packages that were made, then what was done from     *)
(* outside and what came of it.                                                *)
EXTENDS Package, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
VARIABLES c, i, h, bad
vars == << c, i, h, bad >>
Init == c \in 1..Len(Cases) /\ i = 1 /\ h = Cases[c].heap /\ bad = 0
O == Cases[c].ops[i][1]
\* what is refused tells nothing, and changes nothing (which later operations show)
Fits(want, got) ==
  CASE want[1] = "any" -> TRUE
    [] want[1] = "ok" -> got[1] # "err"
    [] want[1] = "err" -> got[1] \notin {"val", "kind"}
    [] want[1] = "maybe" -> got = << "err" >> \/ got = << "val", want[2] >>
    [] OTHER -> want = got
Next == /\ i <= Len(Cases[c].ops) /\ bad = 0
        /\ LET z == Apply(h, O) IN /\ h' = z[1] /\ bad' = IF Fits(z[2], Cases[c].ops[i][2]) THEN 0 ELSE i
        /\ i' = i + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Check == bad # 0 => PrintT(<< "BAD", c, bad, Apply(h, Cases[c].ops[bad][1])[2] >>)
=============================================================================

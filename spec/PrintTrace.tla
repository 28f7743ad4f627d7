----------------------------- MODULE PrintTrace -----------------------------
(* Recorded printing: v the value, t the text the real printer gave, r what   *)
(* reading (or evaluating) that text gave on the real interpreter.            *)
EXTENDS Printer, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<< c, done >>
K == Cases[c]
TextOk == LET a == Read(K.t) IN a.s = "ok" /\ Len(a.v) = 1 /\ EqVal(K.v, IF K.e = 1 THEN Denote(a.v[1]) ELSE a.v[1])
BadReads == { i \in 1..Len(K.r) : ~ (K.r[i][1] = "ok" /\ EqVal(K.v, K.r[i][2])) }
Check == done => LET b == BadReads  t == TextOk IN (b = {} /\ t) \/ PrintT(<< "BAD", c, IF t THEN 1 ELSE 0, IF b = {} THEN 0 ELSE CHOOSE i \in b : TRUE >>)
=============================================================================

----------------------------- MODULE CodecTrace -----------------------------
(* Recorded: v the value, j the JSON texts (how, status, code points), m the   *)
(* msgpack messages (bytes), d what decoding gave.                             *)
EXTENDS Codec, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<< c, done >>
K == Cases[c]
TextOk(x) == x[2] = "ok" /\ LET p == Parse(x[3]) IN p[1] = 1 /\ Denotes(K.v, p[2])
BytesOk(x) == x[2] = "ok" /\ LET p == ParseM(x[3]) IN p[1] = 1 /\ Denotes(K.v, p[2])
BackOk(x) == x[2] = "ok" /\ Equal(K.v, x[3])
\* infinities and NaN have no JSON: refusing is right
\* (json2, which is for display, shows them)
Refused(x) == HasNonFinite(K.v) /\ (x[2] = "err" \/ x[1] = "json2")
BadJ == { i \in 1..Len(K.j) : ~ (TextOk(K.j[i]) \/ Refused(K.j[i])) }
BadM == { i \in 1..Len(K.m) : ~ (BytesOk(K.m[i]) \/ Refused(K.m[i])) }
BadD == { i \in 1..Len(K.d) : ~ (BackOk(K.d[i]) \/ Refused(K.d[i])) }
\* the recogniser and a standard decoder accept the same texts
BadG == { i \in 1..Len(K.j) : K.j[i][2] = "ok" /\ ~ Refused(K.j[i]) /\ Parse(K.j[i][3])[1] # K.j[i][4] }
Pick(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Check == done => LET a == BadJ b == BadM d == BadD g == BadG IN (a = {} /\ b = {} /\ d = {} /\ g = {}) \/ PrintT(<< "BAD", c, Pick(a), Pick(b), Pick(d), Pick(g) >>)
=============================================================================

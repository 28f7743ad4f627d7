------------------------------ MODULE RecordGen ------------------------------
(* Every operation of a small alphabet after every reachable small history;   *)
(* the histories are printed and replayed.  Typed, and: what is refused       *)
(* changes nothing, and no definition in use changes.                         *)
EXTENDS Record, TLC, Json, IOUtils
CONSTANTS Depth
O == ndJsonDeserialize(IOEnv.ZV_OPS)
VARIABLES s, hist, last
vars == << s, hist, last >>
Init == s = Start /\ hist = << >> /\ last = "ok"
Next == /\ Len(hist) < Depth /\ last # "stop"
        /\ \E k \in 1..Len(O) :
             LET r == Do(s, O[k][1]) IN
             /\ s' = r[1] /\ last' = r[2] /\ hist' = Append(hist, k)
             /\ PrintT(<< "H" >> \o hist')
Spec == Init /\ [][Next]_vars
View == << s, last = "stop" >>
Good == Typed(s)
Inert == [][ last' = "err" => s' = s ]_vars
Keeps == [][ \A h \in 1..Len(s.heap) : s'.heap[h][1] = s.heap[h][1] ]_vars
Fixed == [][ \A d \in 1..Len(s.decls) : s'.decls[d] = s.decls[d] ]_vars
=============================================================================

------------------------------ MODULE OMapGen -------------------------------
(* Every history of set/del operations over a universe of key expressions up *)
(* to Depth (exhaustively, or by simulation); the histories are printed and   *)
(* replayed against the real hash.  The map laws are checked on the way.      *)
EXTENDS OMap, TLC, FiniteSets, Json, IOUtils
CONSTANTS Depth
U == ndJsonDeserialize(IOEnv.ZV_UNIV)[1]
VARIABLES m, hist
vars == << m, hist >>
K == 1..U.n
Init == m = Empty /\ hist = << >>
Val == 700001 + Len(hist)
DoSet(k) == /\ m' = Set(m, U, k, Val)
            /\ hist' = Append(hist, 2 * k)
DoDel(k) == /\ m' = Del(m, U, k)
            /\ hist' = Append(hist, 2 * k + 1)
Next == /\ Len(hist) < Depth
        /\ \E k \in K : DoSet(k) \/ DoDel(k)
Spec == Init /\ [][Next]_vars

\* laws of the contract itself
Distinct == WellFormed(m)
Latest == \A k \in K : LET last == { i \in 1..Len(hist) : U.class[hist[i] \div 2] = U.class[k] } IN
            IF last = {} THEN Find(m, U, k) = 0
            ELSE LET i == CHOOSE i \in last : \A j \in last : j <= i IN
                 IF hist[i] % 2 = 1 THEN Find(m, U, k) = 0
                 ELSE Lookup(m, U, k, 0) = 700000 + i
\* an update or a delete of one key never moves or changes another
Frame == [][ \A i \in 1..Len(m) : LET k == hist'[Len(hist')] \div 2 IN
                m[i].class # U.class[k] =>
                  /\ Find(m', U, m[i].key) # 0
                  /\ m'[Find(m', U, m[i].key)] = m[i] ]_vars
Order == [][ \A i, j \in 1..Len(m) : i < j =>
               LET a == Find(m', U, m[i].key)  b == Find(m', U, m[j].key) IN
                 a # 0 /\ b # 0 => a < b ]_vars
Emit == Len(hist) = Depth => PrintT(<<"H">> \o hist)
=============================================================================

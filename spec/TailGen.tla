------------------------------ MODULE TailGen -------------------------------
(* Positions inside a function body, as paths of contexts from the body down   *)
(* to one expression.  IsTail(p) says when that expression is in tail position   *)
(* - then a self-call there must not need any space (C09).  TLC enumerates     *)
(* every path up to Depth; each is turned into functions that are run on the   *)
(* real interpreter, whose stack marks for growing n must be equal exactly     *)
(* when IsTail holds for the path, and whose results must be those of Core.      *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Depth
TailCtx == {"begin", "let", "letseq", "scope", "condlast", "condarm", "condarm2", "and", "or", "shadow"}
OpenCtx == {"arg", "condtest", "andfirst", "letrhs", "stmt", "array", "thunk"}
VARIABLES path, scopes, tail
vars == << path, scopes, tail >>
\* scopes: how many scopes besides the function's own are open at the position
Opens(c) == IF c \in {"let", "letseq", "scope", "shadow"} THEN 1 ELSE 0
Init == path = << >> /\ scopes = 0 /\ tail = TRUE
Enter(c) == /\ path' = Append(path, c)
            /\ scopes' = scopes + Opens(c)
            /\ tail' = (tail /\ c \in TailCtx)
Next == /\ Len(path) < Depth
        /\ \/ \E c \in TailCtx : Enter(c)
           \/ \E c \in OpenCtx : (Len(path) < 2) /\ Enter(c)
Spec == Init /\ [][Next]_vars
IsTail(p) == \A i \in 1..Len(p) : p[i] \in TailCtx
TailOK == tail = IsTail(path)
Emit == PrintT(<< "P", IF tail THEN 1 ELSE 0, scopes >> \o path)
=============================================================================

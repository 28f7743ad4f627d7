---------------------------- MODULE ReaderTrace -----------------------------
(* Recorded answers of the real parser: the text it had been given so far     *)
(* (the first q[k][1] characters of t) and what it answered.                  *)
EXTENDS Reader, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<< c, done >>
K == Cases[c]
\* an answer is <<length, status, expressions>>; without expressions only the status counts
Agrees(a, r) ==
  CASE a.s = "ok" -> r[2] = "ok" /\ (Len(r) < 3 \/ SameSeq(a.v, r[3]))
    [] a.s = "more" -> r[2] = "more" /\ (Len(r) < 3 \/ SameSeq(a.v, r[3]))
    [] a.s = "open" -> r[2] \in {"more", "err"}
    [] a.s = "err" -> r[2] = "err"
RECURSIVE Walk(_, _, _, _)
Walk(L, i, k, bad) ==
  IF k > Len(K.q) THEN bad
  ELSE IF K.q[k][1] <= i THEN
    LET a == Answer(L) IN Walk(L, i, k + 1, IF Agrees(a, K.q[k]) THEN bad ELSE Append(bad, << k, a.s, a.v >>))
  ELSE Walk(Step(L, K.t[i + 1]), i + 1, k, bad)
Check == done => LET b == Walk(Lex0, 0, 1, << >>) IN b # << >> => PrintT(IF IOEnv.ZV_SAY = "1" THEN << "BAD", c, b[1][1], b[1][2], b[1][3] >> ELSE << "BAD", c, b[1][1], b[1][2] >>)
=============================================================================

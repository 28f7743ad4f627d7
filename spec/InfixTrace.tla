----------------------------- MODULE InfixTrace -----------------------------
(* Recorded expansions: t the text of a block, r the forms infixExpand gave   *)
(* for it (st = "ok") or that it refused it.                                  *)
EXTENDS Infix, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<< c, done >>
K == Cases[c]
\* "und": the text is no block, or not an expression of the language
Meaning == LET a == Read(K.t) IN IF a.s # "ok" \/ Len(a.v) # 1 THEN Und ELSE IF ~ IsBlock(a.v[1]) THEN Und ELSE Statements(Block(a.v[1]))
Check == done =>
  LET m == Meaning
      ok == m.s # "ok" \/ (K.st = "ok" /\ Len(m.v) = Len(K.r) /\ \A i \in 1..Len(m.v) : Match(m.v[i], K.r[i])) IN
  /\ (m.s = "ok" \/ PrintT(<< "UND", c >>))
  /\ (ok \/ PrintT(<< "BAD", c, m.v >>))
=============================================================================

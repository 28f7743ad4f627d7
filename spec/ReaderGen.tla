----------------------------- MODULE ReaderGen ------------------------------
(* Every text over an alphabet up to a length, one character at a time: what  *)
(* the reader answers must follow from what is still open in the text.        *)
EXTENDS Reader, TLC, IOUtils, Json
CONSTANT MaxLen
AlphaSeq == ndJsonDeserialize(IOEnv.ZV_ALPHA)[1]
AlphaSet == { AlphaSeq[i] : i \in 1..Len(AlphaSeq) }
VARIABLES text, L
vars == << text, L >>
Init == text = << >> /\ L = Lex0
Next == /\ Len(text) < MaxLen /\ ~ L.bad
        /\ \E ch \in AlphaSet : text' = Append(text, ch) /\ L' = Step(L, ch)
Spec == Init /\ [][Next]_vars
\* brackets that have been opened and not closed, counted without the grammar
RECURSIVE Depth(_, _, _)
Depth(t, i, d) == IF i > Len(t) THEN d
                  ELSE Depth(t, i + 1, IF t[i][1] \in {"(", "[", "{"} THEN d + 1 ELSE IF t[i][1] \in {")", "]", "}"} THEN d - 1 ELSE d)
Literal == L.mode \in {"str", "stresc", "raw", "block", "blockstar"}
\* asks for more exactly when something is open
Unfinished ==
  LET a == Answer(L) IN
  /\ a.s = "more" => Depth(L.toks, 1, 0) > 0 \/ Literal
  /\ a.s \in {"ok", "open"} => Depth(L.toks, 1, 0) = 0 /\ ~ Literal
\* a wrong text stays wrong, and complete expressions stay as they are, whatever follows
Stable ==
  LET a == Answer(L) IN
  \A ch \in AlphaSet :
    LET M == Step(L, ch)  b == Answer(M) IN
    /\ L.bad => M.bad
    /\ (a.s = "err" /\ b.s # "err") => PTop(L.toks, 1, << >>, FALSE).s # "err" /\ ~ L.bad
    \* white space after a finished text changes nothing
    /\ (a.s = "ok" /\ L.mode \notin {"line", "slash"} /\ ch \in {SP, NL}) => b.s = "ok" /\ a.v = b.v
=============================================================================

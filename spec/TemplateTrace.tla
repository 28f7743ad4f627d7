--------------------------- MODULE TemplateTrace ----------------------------
(* What the real interpreter made of each template: value and the order in    *)
(* which its expressions were evaluated.                                      *)
EXTENDS Template, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
VARIABLES c, i, s
vars == << c, i, s >>
Init == c \in 1..Len(Cases) /\ i = 0 /\ s = Start
Next == /\ i < Len(Cases[c].toks) /\ ~ s.err
        /\ i' = i + 1 /\ c' = c
        /\ s' = Step(s, Cases[c].toks[i + 1], Cases[c].env)
Spec == Init /\ [][Next]_vars
End == s.err \/ i = Len(Cases[c].toks)
Traced(l) == SelectSeq(l, LAMBDA x : x \in { Cases[c].traced[j] : j \in DOMAIN Cases[c].traced })
Want == IF s.err THEN <<"err">> ELSE <<"v", Result(s)>>
SameLog(a, b) == IF Cases[c].ordered = 1 THEN a = b
                 ELSE Len(a) = Len(b) /\ \A x \in { a[j] : j \in DOMAIN a } \cup { b[j] : j \in DOMAIN b } :
                        Len(SelectSeq(a, LAMBDA y : y = x)) = Len(SelectSeq(b, LAMBDA y : y = x))
Check == End =>
  /\ (Want # Cases[c].out => PrintT(<<"BAD", c, Want>>))
  /\ (~ s.err /\ Want = Cases[c].out /\ ~ SameLog(Traced(s.log), Cases[c].log) => PrintT(<<"BADLOG", c, Traced(s.log)>>))
=============================================================================

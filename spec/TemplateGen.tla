---------------------------- MODULE TemplateGen -----------------------------
(* Every template of at most MaxTok tokens over small alphabets, with what it *)
(* denotes.                                                                   *)
EXTENDS Template, TLC
CONSTANTS MaxTok, MaxDepth
Env == << <<"sym", "q">>, <<"list", << <<"int", 1>>, <<"sym", "b">> >> >>, <<"nil">> >>
Lits == { <<"sym", "a">>, <<"nil">> }
VARIABLES toks, s
Init == toks = << >> /\ s = Start
Do(t) == toks' = Append(toks, t) /\ s' = Step(s, t, Env)
Room == Len(toks) + (Len(s.stk) - 1) < MaxTok /\ ~ s.err /\ ~ Complete(s)
Need(f) == IF f.k = "hash" THEN Len(f.items) % 2 = 0 ELSE f.k # "dot" \/ Len(f.items) > 1
HashKeyPos == Top(s).k = "hash" /\ Len(Top(s).items) % 2 = 0
Next == \/ Room /\ Len(s.stk) <= MaxDepth /\ ~ HashKeyPos /\ \E k \in {"list", "arr", "hash", "dot"} : Do(<<"open", k>>)
        \/ Room /\ \E v \in Lits : (HashKeyPos => v # <<"nil">>) /\ Do(<<"lit", v>>)
        \/ Room /\ \E i \in 1..Len(Env) : (HashKeyPos => i = 1) /\ Do(<<"unq", i>>)
        \/ Room /\ Top(s).k # "hash" /\ \E i \in 1..Len(Env) : Do(<<"spl", i>>)
        \/ ~ s.err /\ Len(s.stk) > 1 /\ Need(Top(s)) /\ Do(<<"close">>)
Spec == Init /\ [][Next]_<< toks, s >>
(* an unquoted list stays one element, a splice disappears into its surroundings *)
RECURSIVE Count(_, _)
Shape == s.err => \E i \in 1..Len(toks) : toks[i][1] = "spl"
Count(k, i) == IF i > Len(toks) THEN 0 ELSE Count(k, i + 1) + (IF toks[i][1] = k THEN 1 ELSE 0)
Balanced == Count("open", 1) = Count("close", 1) + Len(s.stk) - 1
Once == Len(s.log) = Count("unq", 1) + Count("spl", 1)
Emit == (Complete(s) \/ s.err) => PrintT(<<"T", toks>>)
=============================================================================

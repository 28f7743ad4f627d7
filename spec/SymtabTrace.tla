---------------------------- MODULE SymtabTrace -----------------------------
(* Validation of recorded symbol histories against the contract, and of the   *)
(* comparisons and hash lookups made with the symbols afterwards.             *)
EXTENDS Symtab, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.ZV_CASES)
VARIABLES c, i, tab
Init == c \in 1..Len(Cases) /\ i = 0 /\ tab = {}
Ev == Cases[c].events
Next == /\ i < Len(Ev)
        /\ i' = i + 1 /\ c' = c
        /\ tab' = IF Ev[i + 1].o \in {"mk", "gen"} THEN Add(tab, Ev[i + 1].name, Ev[i + 1].num) ELSE tab
Spec == Init /\ [][Next]_<< c, i, tab >>
StepBad(t, e) == CASE e.o = "mk"  -> ~ MakeOK(t, e.want, e.name, e.num)
                   [] e.o = "gen" -> ~ GenOK(t, e.name, e.num)
                   [] OTHER -> FALSE
Syms == Cases[c].syms
FinalBad ==
  \/ \E p \in 1..Len(Cases[c].eqs) : LET q == Cases[c].eqs[p] IN
        q[3] # (IF Syms[q[1]].name = Syms[q[2]].name THEN 1 ELSE 0)
  \/ Cases[c].hlen # Cardinality({ Syms[k].name : k \in 1..Len(Syms) })
  \/ \E k \in 1..Len(Syms) :
        Cases[c].hget[k] # (CHOOSE j \in 1..Len(Syms) : Syms[j].name = Syms[k].name /\ \A l \in 1..Len(Syms) : Syms[l].name = Syms[k].name => l <= j)
\* the checks are made on the state before the step, through an action constraint
Watch == StepBad(tab, Ev[i']) => PrintT(<< "BAD", c, i', Ev[i'].o >>)
Final == i = Len(Ev) /\ FinalBad => PrintT(<< "BAD", c, 0, "compare" >>)
=============================================================================

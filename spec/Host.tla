------------------------------- MODULE Host -------------------------------
(* The boundary between the interpreter and the Go program that embeds it.   *)
(*                                                                           *)
(* Contract, as a protocol over the events of one interpreter:               *)
(*    call, then exactly one of  value | error,  or  budget  when the        *)
(*    program has used more evaluation steps than it was given;              *)
(* there is no transition on  panic, neither (no value and no error), exit   *)
(* or hang.  Step/Run are that protocol; HostTrace runs recorded histories   *)
(* on it.                                                                    *)
(*                                                                           *)
(* Mechanism: a call goes through stages (lex, parse, macro-expand, compile, *)
(* run, show the result).  At any stage the text may provoke a fault (an     *)
(* unchecked index, cast or nil: a Go panic), nesting (recursion that        *)
(* follows the text or a value) or spinning (a loop of Go code that no       *)
(* evaluation step counts).  A fault does no harm where a check or a         *)
(* recover() turns it into an error; nesting where it has a limit (the Go    *)
(* stack cannot be recovered), spinning where each round consumes input.     *)
(* TLC shows the contract follows from the guards being there at each stage, *)
(* and that leaving out any one guard at any stage breaks it.                *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Missing          \* <<guard, stage>>: the guard that was left out, if any
Stages == <<"lex", "parse", "expand", "compile", "run", "show">>
Guards == {"fault", "nesting", "spinning"}
Guarded(g, s) == Missing # <<g, s>>
Limit == 3                \* depth at which the guard against nesting gives up
StackMax == 5             \* depth that the Go stack has room for
Steps == 2                \* evaluation steps given

(* ---- the protocol *)
States == {"idle", "busy"}
Step(st, e) == CASE st = "idle" /\ e = "call" -> "busy"
                 [] st = "busy" /\ e \in {"value", "error", "budget"} -> "idle"
                 [] OTHER -> "broken"
RECURSIVE Run(_, _)
Run(st, es) == IF es = <<>> THEN st ELSE LET t == Step(st, es[1]) IN IF t = "broken" THEN t ELSE Run(t, SubSeq(es, 2, Len(es)))

(* ---- the mechanism *)
VARIABLES st, at, depth, spin, used, hist
vars == <<st, at, depth, spin, used, hist>>
Init == st = "idle" /\ at = 0 /\ depth = 0 /\ spin = 0 /\ used = 0 /\ hist = <<>>
Ret(e) == st' = Step(st, e) /\ hist' = Append(hist, e) /\ at' = 0 /\ depth' = 0 /\ spin' = 0 /\ used' = 0
Call == st = "idle" /\ Len(hist) < 4 /\ st' = "busy" /\ hist' = Append(hist, "call") /\ at' = 1 /\ UNCHANGED <<depth, spin, used>>
Busy == st = "busy"
Advance == Busy /\ at < Len(Stages) /\ depth' = 0 /\ spin' = 0 /\ at' = at + 1 /\ UNCHANGED <<st, used, hist>>
Refuse == Busy /\ Ret("error")
Answer == Busy /\ at = Len(Stages) /\ Ret("value")
Fault == Busy /\ IF Guarded("fault", Stages[at]) THEN Ret("error") ELSE Ret("panic")
Nest == Busy /\ IF Guarded("nesting", Stages[at]) /\ depth = Limit THEN Ret("error")
                ELSE IF depth = StackMax THEN Ret("exit")
                ELSE depth' = depth + 1 /\ UNCHANGED <<st, at, spin, used, hist>>
Spin == Busy /\ IF Guarded("spinning", Stages[at]) /\ spin = Limit THEN Ret("error")
                ELSE IF spin = StackMax THEN Ret("hang")
                ELSE spin' = spin + 1 /\ UNCHANGED <<st, at, depth, used, hist>>
Evaluate == Busy /\ Stages[at] = "run" /\ IF used = Steps THEN Ret("budget") ELSE used' = used + 1 /\ UNCHANGED <<st, at, depth, spin, hist>>
Next == Call \/ Advance \/ Refuse \/ Answer \/ Fault \/ Nest \/ Spin \/ Evaluate
Spec == Init /\ [][Next]_vars /\ WF_vars(Busy /\ Next)

Contract == st # "broken" /\ Run("idle", hist) = st
\* every call comes back (the guards make each stage finite)
Returns == Busy ~> ~Busy
=============================================================================

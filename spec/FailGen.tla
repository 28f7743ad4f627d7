------------------------------ MODULE FailGen -------------------------------
(* Failing evaluations (C05).  An evaluation descends through a path of        *)
(* contexts and fails in the innermost one.  The interpreter is modelled by      *)
(* the frames that are open (data operands, scopes, calls, loops; one record    *)
(* per context), the marks that completed effects have left in its globals, and  *)
(* the outcome.  Contract: a failure returns an error, closes every frame, and   *)
(* keeps exactly the marks made before it - a later evaluation cannot tell the    *)
(* interpreter from one that only made these marks.                               *)
(* TLC enumerates every path up to Depth and every kind of failure, and gives     *)
(* the marks; the harness turns each behaviour into source text, runs it and     *)
(* compares the interpreter with a twin that only made the observed marks.        *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Depth
\* context -> << marks before the hole, data, scope, call, loop frames it keeps open >>
Ctx == [ begin |-> <<1,0,0,0,0>>, letrhs |-> <<1,1,1,0,0>>, letbody |-> <<1,0,1,0,0>>, lsrhs |-> <<1,0,1,0,0>>, lsbody |-> <<1,0,1,0,0>>,
         scope |-> <<1,0,1,0,0>>, condtest |-> <<1,0,0,0,0>>, condarm |-> <<1,0,0,0,0>>, condlast |-> <<1,0,0,0,0>>, and |-> <<1,0,0,0,0>>, or |-> <<1,0,0,0,0>>,
         arg |-> <<1,2,0,0,0>>, operator |-> <<1,0,0,0,0>>, array |-> <<1,2,0,0,0>>, hash |-> <<1,4,0,0,0>>, call |-> <<1,0,1,1,0>>, callarg |-> <<1,2,1,1,0>>,
         rec |-> <<1,3,4,4,0>>, tailrec |-> <<1,0,1,1,0>>, closure |-> <<1,0,1,1,0>>, thunk |-> <<1,0,1,1,0>>, funcform |-> <<1,0,1,1,0>>, variadic |-> <<2,2,1,1,0>>,
         forbody |-> <<2,0,1,0,1>>, fortest |-> <<1,0,1,0,1>>, forinit |-> <<1,0,1,0,1>>, forincr |-> <<1,0,1,0,1>>, fornest |-> <<3,0,2,0,2>>, range |-> <<1,0,1,0,1>>,
         looplet |-> <<3,0,2,0,1>>, deffrom |-> <<1,0,0,0,0>>, setfrom |-> <<1,0,0,0,0>>, mdef |-> <<1,0,0,0,0>>, map |-> <<2,1,1,1,0>>, apply |-> <<1,1,1,1,0>>,
         host |-> <<1,1,1,1,0>>, lazy |-> <<1,0,1,1,0>>, lazy2 |-> <<2,0,2,2,0>>, eval |-> <<1,0,1,1,0>>, evalfn |-> <<1,0,2,2,0>>, infix |-> <<1,0,0,0,0>>, infixif |-> <<1,0,0,0,0>>, infixfor |-> <<2,0,1,0,1>>,
         macarg |-> <<1,0,0,0,0>>, macgen |-> <<1,0,0,0,0>>, template |-> <<1,1,0,0,0>>, splice |-> <<1,1,0,0,0>>, struct |-> <<1,2,0,0,0>>, assert |-> <<1,0,0,0,0>>,
         aset |-> <<1,3,0,0,0>>, hset |-> <<1,3,0,0,0>>, dotset |-> <<1,1,0,0,0>>, str |-> <<1,1,0,0,0>>, package |-> <<1,0,1,1,0>>, macexpd |-> <<1,0,0,0,0>>,
         pkgcall |-> <<1,0,2,1,0>>, ret |-> <<1,0,1,1,0>>, idx |-> <<1,1,0,0,0>>, while |-> <<2,0,1,0,1>> ]
Kinds == {"unbound", "type", "index", "notfn", "assert", "arity", "miss", "first", "div", "field", "nofield", "host", "hostpanic", "panic", "stop", "lazyerr", "deep",
          "ccond", "clet", "cfn", "cmac", "cmacarity", "cinfix", "evalparse", "evalcomp", "evalrun", "unread", "applynf", "maperr", "dupdef", "badcolon", "structdup"}
VARIABLES path, frames, marks, out, kind
vars == << path, frames, marks, out, kind >>
Zero == << 0, 0, 0, 0 >>
Init == path = << >> /\ frames = << >> /\ marks = 0 /\ out = "running" /\ kind = ""
Enter(c) == /\ out = "running" /\ Len(path) < Depth
            /\ path' = Append(path, c)
            /\ frames' = Append(frames, SubSeq(Ctx[c], 2, 5))
            /\ marks' = marks + Ctx[c][1]
            /\ UNCHANGED << out, kind >>
Fail(k) == /\ out = "running" /\ Len(path) > 0
           /\ out' = "error" /\ kind' = k
           /\ frames' = << >>             \* everything that was open is closed
           /\ UNCHANGED << path, marks >>  \* what was done stays done
Next == (\E c \in DOMAIN Ctx : Enter(c)) \/ (\E k \in Kinds : Fail(k))
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(p) == IF p = << >> THEN 0 ELSE Ctx[p[1]][1] + Sum(SubSeq(p, 2, Len(p)))
Contained == out = "error" => (frames = << >> /\ marks = Sum(path))
Open == out = "running" => Len(frames) = Len(path)
\* one line per path: the harness combines it with every kind
Emit == out = "running" /\ Len(path) > 0 => PrintT(<< "F", marks >> \o path)
EmitK == (out = "error" /\ Len(path) = 1 /\ path[1] = "begin") => PrintT(<< "K", kind >>)
=============================================================================

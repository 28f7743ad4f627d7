------------------------------ MODULE RestGen -------------------------------
(* Successful evaluations (C04).  The contexts and frames are those of FailGen;  *)
(* here the innermost expression returns a value, the contexts return one after  *)
(* the other, and each gives back the frames it opened.  Contract: when the value *)
(* of the whole form is handed to the host, nothing is open (Rest), and nothing   *)
(* has been closed that was not opened (Balanced), so any number of evaluations   *)
(* (Again) leaves the interpreter as large as it was.                             *)
(* TLC enumerates paths x leaves x number of evaluations; each path is turned     *)
(* into source text and run one form at a time, all in one text, and repeatedly.  *)
EXTENDS FailGen
CONSTANT Rounds
Leaves == { "int", "str", "nil", "array", "hash", "list", "closure", "recursion", "tail", "looplit", "loopbreak", "loopcont", "looplabel", "loopdeep", "loopcond", "letret", "func", "funcloop", "funcanon",
            "lazy", "lazyunused", "lazyvar", "eval", "evallet", "map", "mapclos", "apply", "host", "hostnest", "macro", "macroloop", "macexp", "infix", "infixfor", "infixrange", "infixif", "infixswitch", "pkg", "pkgcall", "pkgnest",
            "struct", "structset", "declare", "defn", "defmac", "mdef", "mdefarr", "newscope", "tmpl", "splice", "json", "read", "gensym", "expecterr", "assertok", "range", "rangebrk", "emptybegin", "emptyforms", "quote", "strs", "variadic", "dotset", "method",
            "andor", "condmany", "sort", "println", "comment", "methodcall", "early", "ptr", "hashsplice", "aliases", "defs" }
VARIABLES n, leaf, opened, closed
rvars == << path, frames, marks, out, kind, n, leaf, opened, closed >>
RInit == Init /\ n = 0 /\ leaf = "" /\ opened = 0 /\ closed = 0
REnter(c) == Enter(c) /\ opened' = opened + 1 /\ UNCHANGED << n, leaf, closed >>
\* the innermost expression has a value
Yield(l) == out = "running" /\ Len(path) > 0 /\ out' = "returning" /\ leaf' = l /\ UNCHANGED << path, frames, marks, kind, n, opened, closed >>
\* a context returns and gives back what it opened
Leave == out = "returning" /\ frames # << >> /\ frames' = SubSeq(frames, 1, Len(frames) - 1) /\ closed' = closed + 1
         /\ UNCHANGED << path, marks, out, kind, n, leaf, opened >>
Done == out = "returning" /\ frames = << >> /\ out' = "value" /\ n' = n + 1 /\ UNCHANGED << path, frames, marks, kind, leaf, opened, closed >>
\* the host evaluates the same form again
Again == out = "value" /\ n < Rounds /\ out' = "returning" /\ frames' = [i \in 1..Len(path) |-> SubSeq(Ctx[path[i]], 2, 5)]
         /\ opened' = opened + Len(path) /\ UNCHANGED << path, marks, kind, n, leaf, closed >>
RNext == (\E c \in DOMAIN Ctx : REnter(c)) \/ (\E l \in Leaves : Yield(l)) \/ Leave \/ Done \/ Again
RSpec == RInit /\ [][RNext]_rvars
Rest == out = "value" => (frames = << >> /\ opened = closed /\ opened = n * Len(path))
Balanced == closed <= opened /\ (out = "running" => Len(frames) = opened)
REmit == out = "running" /\ Len(path) > 0 => PrintT(<< "F", marks >> \o path)
REmitK == (out = "value" /\ Len(path) = 1 /\ path[1] = "begin" /\ n = 1) => PrintT(<< "K", leaf >>)
=============================================================================

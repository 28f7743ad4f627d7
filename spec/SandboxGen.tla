---------------------------- MODULE SandboxGen ----------------------------
(* The programs to try on a name: an outer way of running an expression, a   *)
(* way of calling the name in it, and the shapes of the arguments.           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS NShapes, MaxArgs, MaxNested
Outer == {"none", "fnbody", "eval", "evalread", "macro", "lazy", "package", "defn", "loop", "infix", "var", "timeit", "mapfn", "source", "thread"}
Inner == {"direct", "alias", "let", "evalsym", "apply", "applylist", "map", "hash", "array", "infixcall", "quasi",
          "arg", "head", "macexpand", "expecterror", "set", "redef", "param", "dot",
          "applyquoted", "applystr", "mapquoted", "callstr", "callquoted", "builtindot", "str2sym", "recur"}
VARIABLES o, i, args
Init == o \in Outer /\ i \in Inner /\ args = <<>>
Bound == IF o = "none" /\ i = "direct" THEN MaxArgs ELSE MaxNested
Next == /\ Len(args) < Bound /\ \E k \in 1..NShapes : args' = Append(args, k)
        /\ UNCHANGED <<o, i>>
Spec == Init /\ [][Next]_<<o, i, args>>
Emit == ndJsonSerialize(IOEnv.ZV_OUT \o "/" \o ToString(TLCGet("stats").distinct) \o ".ndjson", <<[o |-> o, i |-> i, a |-> args]>>)
Show == PrintT(<<"PROG", o, i, args>>)
=============================================================================

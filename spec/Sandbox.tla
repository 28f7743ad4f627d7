------------------------------ MODULE Sandbox ------------------------------
(* What a sandboxed interpreter may do to the world: nothing.                *)
(*                                                                           *)
(* The world is what a script must not touch: files with their contents,     *)
(* environment variables, processes started, the working directory, and      *)
(* whether the host still runs.  The contract has no transition of it and    *)
(* nothing of its content in what the script learns:                         *)
(*    Quiet(before, after, learned)                                          *)
(*                                                                           *)
(* The mechanism: an interpreter is a table of bindings made at construction *)
(* (base), more added by the standard setup, and forms that the compiler     *)
(* knows without a binding.  Script text gets at a capability only through a *)
(* name that is bound or a form; the routes (alias, eval, apply, macro, ...) *)
(* take values and expressions it has already and yield others, and add no   *)
(* capability.  TLC shows that the contract holds if neither the tables nor  *)
(* the forms grant one, and that each faulty variant breaks it.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Fault        \* "none" or the variant
Caps == {"read", "write", "spawn", "getenv", "setenv", "exit"}
Names == {"pure", "slurpf", "writef", "system", "getenv", "setenv", "exit", "sys", "import", "include", "eval", "apply"}
CapOf(n) == CASE n = "slurpf" -> {"read"} [] n = "writef" -> {"write"}
              [] n \in {"system", "sys"} -> {"spawn"} [] n = "getenv" -> {"getenv"}
              [] n = "setenv" -> {"setenv"} [] n = "exit" -> {"exit"}
              [] n \in {"import", "include"} -> {"read"} [] OTHER -> {}
Configs == {"bare", "std", "cmd"}
Base == {"pure", "apply"} \cup (IF Fault = "table" THEN {"slurpf"} ELSE {})
Setup(c) == IF c = "bare" THEN {} ELSE {"eval"} \cup (IF Fault = "setup" THEN {"sys"} ELSE {})
Forms == {"begin", "fn"} \cup (IF Fault = "form" THEN {"include"} ELSE {})
Bound(c) == Base \cup Setup(c)

VARIABLES cfg, world, learned, held
vars == <<cfg, world, learned, held>>
World0 == [file |-> "secret", env |-> "secret", procs |-> 0, alive |-> TRUE]
Init == cfg \in Configs /\ world = World0 /\ learned = {} /\ held = {}

\* the script holds a function value: by its name, or by a name that it makes up
Take == \E n \in Names : (n \in Bound(cfg) \/ (Fault = "dispatch" /\ "eval" \in Bound(cfg)))
                         /\ n \notin held /\ held' = held \cup {n} /\ UNCHANGED <<cfg, world, learned>>
Effect(cs) ==
  /\ world' = [file |-> IF "write" \in cs THEN "changed" ELSE world.file,
               env |-> IF "setenv" \in cs THEN "changed" ELSE world.env,
               procs |-> IF "spawn" \in cs THEN 1 ELSE world.procs,
               alive |-> world.alive /\ "exit" \notin cs]
  /\ learned' = learned \cup (IF "read" \in cs THEN {"file"} ELSE {}) \cup (IF "getenv" \in cs THEN {"env"} ELSE {})
  /\ UNCHANGED <<cfg, held>>
Call == \E n \in held : Effect(CapOf(n))
UseForm == \E f \in Forms : Effect(CapOf(f))
Next == world.alive /\ (Take \/ Call \/ UseForm)
Spec == Init /\ [][Next]_vars

Quiet(before, after, said) == after = before /\ said = {}
Contract == Quiet(World0, world, learned)
=============================================================================

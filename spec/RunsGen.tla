------------------------------- MODULE RunsGen -------------------------------
(* Histories of a process before a run, and the programs in which the order    *)
(* of a table, a number given out or an address could show: a container of     *)
(* some size and something that looks at it.                                   *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Depth
VARIABLES hist, prog
Acts == {"plain", "sandbox", "nostd", "dup", "names", "structs", "package", "macro", "fails", "gensym", "gotypes", "json"}
Containers == {"hash", "hashstr", "hashint", "hashmix", "record", "struct", "gorec", "gobad", "gonest", "package", "pkgalias", "json", "jsonrec", "msgpack", "nested", "scope", "array", "syms", "types", "fromgo"}
Sizes == {1, 2, 3, 9, 20, 40}
\* names that a coarser order than the one in use would take for equal, or order otherwise
Names == {"plain", "case", "prefix", "numeric", "sigil", "latin"}
Observers == {"value", "str", "json", "json2", "msgpack", "unjson", "unmsgpack", "togo", "togo2", "fromgo", "keys", "range", "for", "infor", "hpair", "printf", "sprintf", "println", "field", "nofield", "wrong", "call", "equal", "less", "typeq", "fieldls", "methodls", "method", "method2", "nomethod", "del", "map", "apply", "concat", "flatten", "copy", "mac", "tmpl", "nest", "typelist", "symnum", "gensym", "undefined", "err", "errnest", "closure", "closdump", "source", "asSym", "sort", "len", "defined", "declare", "redeclare", "show"}
Init == hist = <<>> /\ prog = <<>>
Extend == prog = <<>> /\ Len(hist) < Depth /\ \E a \in Acts : hist' = Append(hist, a) /\ UNCHANGED prog
Pick == prog = <<>> /\ hist = <<>> /\ \E c \in Containers, n \in Sizes, o \in Observers, k \in Names : prog' = <<c, n, o, k>> /\ UNCHANGED hist
Spec == Init /\ [][Extend \/ Pick]_<<hist, prog>>
Emit == /\ (prog # <<>> => PrintT(<<"P", prog>>))
        /\ (prog = <<>> => PrintT(<<"H", hist>>))
=============================================================================

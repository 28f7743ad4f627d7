------------------------------ MODULE PrintGen ------------------------------
(* Every value up to a shape bound: the printer of Printer.tla and the reader *)
(* of Reader.tla agree on it.  The values are also printed by the real        *)
(* printer and read by the real reader.                                       *)
EXTENDS Printer, TLC, Json, IOUtils, SequencesExt, FiniteSets
Nat1(n) == IF n = 0 THEN Zero ELSE << n >>
Atoms == { << "int", 0, Zero >>, << "int", 1, << 1 >> >>, << "int", 1, Two(63) >>, << "int", 0, Sub(Two(63), << 1 >>) >>, << "u64", << 7 >> >>, << "u64", Sub(Two(64), << 1 >>) >>,
           << "bool", 1 >>, << "bool", 0 >>, << "nil" >>, << "char", 97 >>, << "char", SQ >>, << "char", BSL >>, << "char", NL >>, << "char", 955 >>, << "char", 0 >>,
           << "str", << >> >>, << "str", << DQ, BSL >> >>, << "str", << NL, 120, cColon >> >>, << "str", << 1114112 + 195, 955 >> >>, << "str", << BT, 0 >> >>,
           << "sym", << 97 >> >>, << "sym", << cMinus >> >>, << "sym", << cPlus >> >>, << "sym", << 97, cDot, 98 >> >>, << "sym", << cColon, cEq >> >> }
\* what follows or precedes an element is what its text can be mistaken with
Few == { << "int", 1, << 1 >> >>, << "nil" >>, << "sym", << cMinus >> >>, << "sym", << 97 >> >>, << "str", << DQ >> >>, << "char", SQ >> }
Json0 == { a \in Atoms : a[1] \notin {"char", "sym", "u64"} }
Keys == { << "sym", << 97 >> >>, << "sym", << 98 >> >>, << "str", << >> >>, << "str", << DQ, cColon >> >>, << "str", << BSL >> >> }
Seqs(S) == { << >> } \cup { << a >> : a \in S } \cup { << a, b >> : a \in S, b \in S }
NESeqs(S) == Seqs(S) \ { << >> }
Level(S, T) == { << "arr", q >> : q \in Seqs(S) } \cup { << "list", q >> : q \in NESeqs(S) } \cup { << "dotted", << a >>, b >> : a \in S, b \in { c \in T : c[1] \notin {"list", "nil", "dotted"} } }
D1 == Level(Atoms, Atoms)
Small1 == Level(Few, Few)
D2 == { << "arr", << a, b >> >> : a \in Small1, b \in Few } \cup { << "list", << a, b >> >> : a \in Few, b \in Small1 } \cup { << "list", << a >> >> : a \in Small1 } \cup { << "dotted", << a >>, << "int", 1, << 1 >> >> >> : a \in Small1 }
Hashes(K, S) == { << "hash", << >> >> } \cup { << "hash", << << k, a >> >> >> : k \in K, a \in S } \cup { << "hash", << << k, a >>, << l, b >> >> >> : k \in K, l \in { x \in K : x # << "sym", << 97 >> >> }, a \in { x \in S : x[1] # "bool" }, b \in S }
Uniq(v) == v[1] # "hash" \/ Len(v[2]) < 2 \/ v[2][1][1] # v[2][2][1]
J1 == { v \in Hashes(Keys, Json0) : Uniq(v) } \cup { << "arr", q >> : q \in Seqs(Json0) }
JFew == { v \in Hashes({ << "sym", << 97 >> >>, << "str", << DQ, cColon >> >> }, { << "int", 1, << 1 >> >>, << "nil" >> }) : Uniq(v) } \cup { << "arr", q >> : q \in Seqs({ << "nil" >>, << "str", << DQ >> >> }) }
J2 == { << "arr", << a, b >> >> : a \in JFew, b \in JFew } \cup { << "hash", << << k, a >>, << << "sym", << 98 >> >>, b >> >> >> : k \in { << "sym", << 97 >> >>, << "str", << DQ, cColon >> >> }, a \in JFew, b \in JFew }
Data == Atoms \cup D1 \cup D2
Jsons == Json0 \cup J1 \cup J2
Out == IOEnv.ZV_OUT = "" \/ ndJsonSerialize(IOEnv.ZV_OUT, SetToSeq({ << "data", v >> : v \in Data }) \o SetToSeq({ << "eval", v >> : v \in Jsons }))
ASSUME Out
VARIABLES k, v, done
Init == done = FALSE /\ ((k = "data" /\ v \in Data) \/ (k = "eval" /\ v \in Jsons))
Next == ~ done /\ done' = TRUE /\ k' = k /\ v' = v
Spec == Init /\ [][Next]_<< k, v, done >>
RoundTrip == done =>
  LET a == Read(Show(v)) IN a.s = "ok" /\ Len(a.v) = 1 /\ EqVal(v, IF k = "data" THEN a.v[1] ELSE Denote(a.v[1]))
=============================================================================

------------------------------ MODULE Printer -------------------------------
(* What a printed value denotes, and one way of printing that is right.       *)
(* Values are written as in Reader.tla, hashes as <<"hash", <<<<k, v>>, ..>>>>.*)
EXTENDS Reader
\* ---------------------------------------------------------- equality
FloatOfTuple(r) == [c |-> r[2], s |-> r[3], m |-> r[4], e |-> r[5]]
RECURSIVE EqVal(_, _)
EqSeq(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : EqVal(x[i], y[i])
\* v is the original, r what the text gave.  A float may be written as an
\* integer of the same value, as numbers compare by value.
EqVal(v, r) ==
  CASE v[1] = "float" /\ v[2] = "nan" -> r[1] = "float" /\ r[2] = "nan"
    [] v[1] = "float" /\ v[2] = "fin" /\ r[1] = "dec" -> Nearest(IF v[4] = Zero THEN v[3] ELSE r[2], r[3], r[4], FloatOfTuple(v))
    [] v[1] = "float" /\ v[2] = "fin" /\ r[1] = "int" -> Nearest(IF v[4] = Zero THEN v[3] ELSE r[2], r[3], 0, FloatOfTuple(v))
    [] v[1] = "float" /\ v[2] = "fin" -> r[1] = "float" /\ r[2] = "fin" /\ r[4] = v[4] /\ (v[4] = Zero \/ (r[3] = v[3] /\ r[5] = v[5]))
    [] v[1] \in {"list", "arr"} -> r[1] = v[1] /\ EqSeq(v[2], r[2])
    [] v[1] = "dotted" -> r[1] = v[1] /\ EqSeq(v[2], r[2]) /\ EqVal(v[3], r[3])
    [] v[1] = "hash" -> r[1] = "hash" /\ Len(v[2]) = Len(r[2]) /\ \A i \in 1..Len(v[2]) : EqVal(v[2][i][1], r[2][i][1]) /\ EqVal(v[2][i][2], r[2][i][2])
    [] OTHER -> v = r
\* ---------------------------------------------------------- evaluating data
HASH == << 104, 97, 115, 104 >>
Bad == << "bad" >>
RECURSIVE Denote(_)
RECURSIVE PairUp(_, _, _)
\* keys: names stand for themselves
PairUp(xs, i, acc) ==
  IF i > Len(xs) THEN << "hash", acc >>
  ELSE IF i = Len(xs) THEN Bad
  ELSE PairUp(xs, i + 2, Append(acc, << xs[i], Denote(xs[i + 1]) >>))
Denote(x) ==
  CASE x[1] = "arr" -> << "arr", [ i \in 1..Len(x[2]) |-> Denote(x[2][i]) ] >>
    [] x[1] = "list" /\ Len(x[2]) > 0 /\ x[2][1] = Sym(HASH) ->
         \* the colon after a string or a raw string is a token of its own
         PairUp(SelectSeq(Rest(x[2], 2), LAMBDA y : y # << "sym", << cColon >> >>), 1, << >>)
    [] OTHER -> x
\* ---------------------------------------------------------- a printer
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
\* decimal digits of a natural
RECURSIVE DivSmallFrom(_, _, _, _, _)
DivSmallFrom(a, d, i, r, acc) == IF i = 0 THEN << Trim(acc), r >>
  ELSE LET t == r * BASE + a[i] IN DivSmallFrom(a, d, i - 1, t % d, << t \div d >> \o acc)
RECURSIVE Digits(_)
Digits(m) == IF m = Zero THEN << >> ELSE LET q == DivSmallFrom(m, 10, Len(m), 0, << >>) IN Append(Digits(q[1]), 48 + q[2])
Decimal(m) == IF m = Zero THEN << 48 >> ELSE Digits(m)
Hex(n, w) == [ i \in 1..w |-> HexD((n \div (16 ^ (w - i))) % 16) ]
Esc(ch, quote) ==
  IF ch = quote \/ ch = BSL THEN << BSL, ch >>
  ELSE IF ch = NL THEN << BSL, 110 >>
  ELSE IF ch >= 1114112 THEN << BSL, 120 >> \o Hex(ch - 1114112, 2)
  ELSE IF ch < 32 \/ ch = 127 THEN << BSL, 120 >> \o Hex(ch, 2)
  ELSE << ch >>
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Flat(Rest(ss, 2))
RECURSIVE Join(_)
Join(ss) == IF ss = << >> THEN << >> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o << SP >> \o Join(Rest(ss, 2))
Quoted(s, q) == << q >> \o Flat([ i \in 1..Len(s) |-> Esc(s[i], q) ]) \o << q >>
RECURSIVE Show(_)
ShowKey(k) == IF k[1] = "sym" THEN k[2] \o << cColon >> ELSE Show(k) \o << cColon >>
Show(v) ==
  CASE v[1] = "int" -> (IF v[2] = 1 THEN << cMinus >> ELSE << >>) \o Decimal(v[3])
    [] v[1] = "u64" -> Decimal(v[2]) \o ULLs
    [] v[1] = "bool" -> IF v[2] = 1 THEN << 116, 114, 117, 101 >> ELSE << 102, 97, 108, 115, 101 >>
    [] v[1] = "nil" -> << 110, 105, 108 >>
    [] v[1] = "char" -> Quoted(<< v[2] >>, SQ)
    [] v[1] = "str" -> Quoted(v[2], DQ)
    [] v[1] = "sym" -> v[2]
    [] v[1] = "list" -> << cLP >> \o Join([ i \in 1..Len(v[2]) |-> Show(v[2][i]) ]) \o << cRP >>
    [] v[1] = "dotted" -> << cLP >> \o Join([ i \in 1..Len(v[2]) |-> Show(v[2][i]) ]) \o << SP, BSL, SP >> \o Show(v[3]) \o << cRP >>
    [] v[1] = "arr" -> << cLB >> \o Join([ i \in 1..Len(v[2]) |-> Show(v[2][i]) ]) \o << cRB >>
    [] v[1] = "hash" -> << cLC >> \o Join([ i \in 1..Len(v[2]) |-> ShowKey(v[2][i][1]) \o Show(v[2][i][2]) ]) \o << cRC >>
=============================================================================

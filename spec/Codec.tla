------------------------------- MODULE Codec -------------------------------
(* Data as text and as bytes: which code points are a JSON text and what the  *)
(* text denotes (RFC 8259), which bytes are a msgpack message and what they   *)
(* denote, and the encodings that the interpreter gives a value: a record is  *)
(* an object with the member Atype for its type name and zKeyOrder for the    *)
(* order of its fields.  Numbers are compared by value.                       *)
EXTENDS Printer, Naturals, FiniteSets
\* ------------------------------------------------ what a text denotes
\* <<"dec", s, m, k>> (-1)^s m 10^k, <<"float", c, s, m, e>>, <<"str", code points>>,
\* <<"bool", 0/1>>, <<"nil">>, <<"arr", values>>, <<"obj", << <<name, value>>, ... >> >>
JSpace == {SP, TAB, NL, CR}
RECURSIVE Skip(_, _)
Skip(t, i) == IF i <= Len(t) /\ t[i] \in JSpace THEN Skip(t, i + 1) ELSE i
Ch(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i] ELSE -1
JOk(v, i) == << 1, v, i >>
JErr == << 0, << "nil" >>, 0 >>
IsDigit(t, i) == Ch(t, i) >= 48 /\ Ch(t, i) <= 57
RECURSIVE DigEnd(_, _)
DigEnd(t, i) == IF IsDigit(t, i) THEN DigEnd(t, i + 1) ELSE i
\* a number: the position after it, 0 if there is none
NumEnd(t, i) ==
  LET a == IF Ch(t, i) = cMinus THEN i + 1 ELSE i
      b == IF ~ IsDigit(t, a) THEN 0 ELSE IF t[a] = 48 THEN a + 1 ELSE DigEnd(t, a)
      c == IF b = 0 THEN 0 ELSE IF Ch(t, b) # cDot THEN b ELSE IF IsDigit(t, b + 1) THEN DigEnd(t, b + 1) ELSE 0
      x == IF c = 0 \/ Ch(t, c) \notin {101, 69} THEN 0 ELSE IF Ch(t, c + 1) \in {cMinus, cPlus} THEN c + 2 ELSE c + 1 IN
  IF c = 0 \/ x = 0 THEN c ELSE IF IsDigit(t, x) THEN DigEnd(t, x) ELSE 0
HexAt(t, i) == IF \A j \in 0..3 : Ch(t, i + j) >= 0 /\ IsHex(Ch(t, i + j)) THEN HexNat(SubSeq(t, i, i + 3), 1, 0) ELSE -1
SimpleEsc == [ x \in {DQ, BSL, cSlash, 98, 102, 110, 114, 116} |-> CASE x = 98 -> 8 [] x = 102 -> 12 [] x = 110 -> 10 [] x = 114 -> 13 [] x = 116 -> 9 [] OTHER -> x ]
RECURSIVE JStr(_, _, _)
\* i is after the opening quote
JStr(t, i, acc) ==
  LET ch == Ch(t, i) IN
  IF ch < 32 \/ ch >= 1114112 THEN JErr
  ELSE IF ch = DQ THEN JOk(<< "str", acc >>, i + 1)
  ELSE IF ch # BSL THEN JStr(t, i + 1, Append(acc, ch))
  ELSE LET e == Ch(t, i + 1) IN
       IF e \in DOMAIN SimpleEsc THEN JStr(t, i + 2, Append(acc, SimpleEsc[e]))
       ELSE IF e # 117 THEN JErr
       ELSE LET h == HexAt(t, i + 2) IN
            IF h < 0 THEN JErr
            ELSE IF h < 55296 \/ h > 57343 THEN JStr(t, i + 6, Append(acc, h))
            ELSE LET l == IF h < 56320 /\ Ch(t, i + 6) = BSL /\ Ch(t, i + 7) = 117 THEN HexAt(t, i + 8) ELSE -1 IN
                 IF l < 56320 \/ l > 57343 THEN JErr
                 ELSE JStr(t, i + 12, Append(acc, 65536 + (h - 55296) * 1024 + (l - 56320)))
Word4(t, i, w) == Len(t) >= i + Len(w) - 1 /\ SubSeq(t, i, i + Len(w) - 1) = w
TRUEs == << 116, 114, 117, 101 >>  FALSEs == << 102, 97, 108, 115, 101 >>  NULLs == << 110, 117, 108, 108 >>
RECURSIVE JVal(_, _)
RECURSIVE JElems(_, _, _)
RECURSIVE JMembers(_, _, _)
JVal(t, i0) ==
  LET i == Skip(t, i0)  ch == Ch(t, i) IN
  IF ch = cLC THEN (LET j == Skip(t, i + 1) IN IF Ch(t, j) = cRC THEN JOk(<< "obj", << >> >>, j + 1) ELSE JMembers(t, j, << >>))
  ELSE IF ch = cLB THEN (LET j == Skip(t, i + 1) IN IF Ch(t, j) = cRB THEN JOk(<< "arr", << >> >>, j + 1) ELSE JElems(t, j, << >>))
  ELSE IF ch = DQ THEN JStr(t, i + 1, << >>)
  ELSE IF Word4(t, i, TRUEs) THEN JOk(<< "bool", 1 >>, i + 4)
  ELSE IF Word4(t, i, FALSEs) THEN JOk(<< "bool", 0 >>, i + 5)
  ELSE IF Word4(t, i, NULLs) THEN JOk(<< "nil" >>, i + 4)
  ELSE LET n == NumEnd(t, i) IN IF n = 0 THEN JErr ELSE JOk(FloatOf(SubSeq(t, i, n - 1)), n)
JElems(t, i, acc) ==
  LET v == JVal(t, i) IN
  IF v[1] = 0 THEN JErr
  ELSE LET j == Skip(t, v[3]) IN
       IF Ch(t, j) = cComma THEN JElems(t, j + 1, Append(acc, v[2]))
       ELSE IF Ch(t, j) = cRB THEN JOk(<< "arr", Append(acc, v[2]) >>, j + 1) ELSE JErr
JMembers(t, i0, acc) ==
  LET i == Skip(t, i0) IN
  IF Ch(t, i) # DQ THEN JErr
  ELSE LET k == JStr(t, i + 1, << >>)  c == IF k[1] = 0 THEN 0 ELSE Skip(t, k[3]) IN
       IF c = 0 \/ Ch(t, c) # cColon THEN JErr
       ELSE LET v == JVal(t, c + 1) IN
            IF v[1] = 0 THEN JErr
            ELSE LET j == Skip(t, v[3])  a2 == Append(acc, << k[2][2], v[2] >>) IN
                 IF Ch(t, j) = cComma THEN JMembers(t, j + 1, a2)
                 ELSE IF Ch(t, j) = cRC THEN JOk(<< "obj", a2 >>, j + 1) ELSE JErr
Parse(t) == LET v == JVal(t, 1) IN IF v[1] = 1 /\ Skip(t, v[3]) = Len(t) + 1 THEN v ELSE JErr

\* ------------------------------------------------ what bytes denote
RECURSIVE BigEnd(_, _, _, _)
BigEnd(b, i, n, acc) == IF n = 0 THEN acc ELSE BigEnd(b, i + 1, n - 1, Add(MulSmall(acc, 256), IF b[i] = 0 THEN Zero ELSE << b[i] >>))
Small(b, i, n) == LET m == BigEnd(b, i, n, Zero) IN IF Len(m) > 2 THEN 100000000 ELSE Limb(m, 1) + BASE * Limb(m, 2)
Int2(s, m) == << "dec", s, m, 0 >>
SignedAt(b, i, n) == LET m == BigEnd(b, i, n, Zero) IN IF b[i] >= 128 THEN Int2(1, Sub(Two(8 * n), m)) ELSE Int2(0, m)
\* UTF-8; a byte that is no part of a character makes the text bad
RECURSIVE Utf8(_, _, _, _)
Cont(b, i, n, e) == \A j \in i..(i + n - 1) : j <= e /\ b[j] >= 128 /\ b[j] < 192
Utf8(b, i, e, acc) ==
  IF i > e THEN << 1, acc >>
  ELSE LET x == b[i] IN
       IF x < 128 THEN Utf8(b, i + 1, e, Append(acc, x))
       ELSE IF x >= 194 /\ x < 224 /\ Cont(b, i + 1, 1, e) THEN Utf8(b, i + 2, e, Append(acc, (x - 192) * 64 + b[i + 1] - 128))
       ELSE IF x >= 224 /\ x < 240 /\ Cont(b, i + 1, 2, e) THEN Utf8(b, i + 3, e, Append(acc, (x - 224) * 4096 + (b[i + 1] - 128) * 64 + b[i + 2] - 128))
       ELSE IF x >= 240 /\ x < 245 /\ Cont(b, i + 1, 3, e) THEN Utf8(b, i + 4, e, Append(acc, (x - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + b[i + 3] - 128))
       ELSE << 0, << >> >>
MStr(b, i, n) == IF n < 0 \/ i + n - 1 > Len(b) THEN JErr ELSE LET s == Utf8(b, i, i + n - 1, << >>) IN IF s[1] = 1 THEN JOk(<< "str", s[2] >>, i + n) ELSE JErr
Has(b, i, n) == i + n - 1 <= Len(b)
RECURSIVE MVal(_, _)
RECURSIVE MElems(_, _, _, _)
RECURSIVE MPairs(_, _, _, _)
MVal(b, i) ==
  LET x == IF i <= Len(b) THEN b[i] ELSE 193 IN
  IF x < 128 THEN JOk(Int2(0, IF x = 0 THEN Zero ELSE << x >>), i + 1)
  ELSE IF x < 144 THEN MPairs(b, i + 1, x - 128, << >>)
  ELSE IF x < 160 THEN MElems(b, i + 1, x - 144, << >>)
  ELSE IF x < 192 THEN MStr(b, i + 1, x - 160)
  ELSE IF x >= 224 THEN JOk(Int2(1, << 256 - x >>), i + 1)
  ELSE IF x = 192 THEN JOk(<< "nil" >>, i + 1)
  ELSE IF x \in {194, 195} THEN JOk(<< "bool", x - 194 >>, i + 1)
  ELSE IF x = 203 /\ Has(b, i + 1, 8) THEN JOk(FloatVal(Decode(Pad6(BigEnd(b, i + 1, 8, Zero)))), i + 9)
  ELSE IF x \in 204..207 /\ Has(b, i + 1, P2[x - 204]) THEN JOk(Int2(0, BigEnd(b, i + 1, P2[x - 204], Zero)), i + 1 + P2[x - 204])
  ELSE IF x \in 208..211 /\ Has(b, i + 1, P2[x - 208]) THEN JOk(SignedAt(b, i + 1, P2[x - 208]), i + 1 + P2[x - 208])
  ELSE IF x \in 217..219 /\ Has(b, i + 1, P2[x - 217]) THEN MStr(b, i + 1 + P2[x - 217], Small(b, i + 1, P2[x - 217]))
  ELSE IF x \in 220..221 /\ Has(b, i + 1, P2[x - 219]) THEN MElems(b, i + 1 + P2[x - 219], Small(b, i + 1, P2[x - 219]), << >>)
  ELSE IF x \in 222..223 /\ Has(b, i + 1, P2[x - 221]) THEN MPairs(b, i + 1 + P2[x - 221], Small(b, i + 1, P2[x - 221]), << >>)
  ELSE JErr
MElems(b, i, n, acc) ==
  IF n = 0 THEN JOk(<< "arr", acc >>, i)
  ELSE LET v == MVal(b, i) IN IF v[1] = 0 THEN JErr ELSE MElems(b, v[3], n - 1, Append(acc, v[2]))
MPairs(b, i, n, acc) ==
  IF n = 0 THEN JOk(<< "obj", acc >>, i)
  ELSE LET k == MVal(b, i) IN
       IF k[1] = 0 \/ k[2][1] # "str" THEN JErr
       ELSE LET v == MVal(b, k[3]) IN IF v[1] = 0 THEN JErr ELSE MPairs(b, v[3], n - 1, Append(acc, << k[2][2], v[2] >>))
ParseM(b) == LET v == MVal(b, 1) IN IF v[1] = 1 /\ v[3] = Len(b) + 1 THEN v ELSE JErr

\* ------------------------------------------------ values
\* <<"int", s, m>>, <<"u64", m>>, <<"float", c, s, m, e>>, <<"str", s>>, <<"bool", b>>, <<"nil">>,
\* <<"arr", values>>, <<"rec", type name, << <<key, value>>, ... >> >>, key <<"sym"/"str", name>>
Atype == << 65, 116, 121, 112, 101 >>
KeyOrd == << 122, 75, 101, 121, 79, 114, 100, 101, 114 >>
Numeric(v) == v[1] \in {"int", "u64", "float"}
Exact(v) == CASE v[1] = "int" -> Canon(v[2], v[3], 0) [] v[1] = "u64" -> Canon(0, v[2], 0) [] v[1] = "float" -> [c |-> v[2], s |-> v[3], m |-> v[4], e |-> v[5]]
SameNum(v, w) == LET a == Exact(v)  b == Exact(w) IN a.c = b.c /\ a.m = b.m /\ ((a.c = "fin" /\ a.m = Zero) \/ (a.s = b.s /\ a.e = b.e))
RECURSIVE HasNonFinite(_)
HasNonFinite(v) == CASE v[1] = "float" -> v[2] # "fin"
    [] v[1] = "arr" -> \E i \in 1..Len(v[2]) : HasNonFinite(v[2][i])
    [] v[1] = "rec" -> \E i \in 1..Len(v[3]) : HasNonFinite(v[3][i][2])
    [] OTHER -> FALSE
\* the number x is the value of v (x as a standard decoder reads it: an integer
\* exactly, anything else as the nearest double)
NumDenotes(v, x) ==
  IF x[1] = "float" THEN SameNum(v, x)
  ELSE IF x[1] # "dec" THEN FALSE
  ELSE LET z == x[3] = Zero IN
       IF v[1] = "float" THEN v[2] = "fin" /\ Nearest(IF v[4] = Zero THEN v[3] ELSE x[2], x[3], x[4], FloatOfTuple(v)) /\ (v[4] # Zero \/ z)
       ELSE LET m == IF v[1] = "int" THEN v[3] ELSE v[2]  s == IF v[1] = "int" THEN v[2] ELSE 0 IN
            IF m = Zero \/ z THEN m = Zero /\ z
            ELSE s = x[2] /\ x[4] \in -40..40 /\ (IF x[4] >= 0 THEN m = TimesPow10(x[3], x[4]) ELSE x[3] = TimesPow10(m, -x[4]))
Names(ps) == [ i \in 1..Len(ps) |-> ps[i][1][2] ]
RECURSIVE Denotes(_, _)
\* x is what a text says, v a value
Denotes(v, x) ==
  CASE Numeric(v) -> NumDenotes(v, x)
    [] v[1] = "arr" -> x[1] = "arr" /\ Len(x[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : Denotes(v[2][i], x[2][i])
    [] v[1] = "rec" ->
         /\ x[1] = "obj"
         /\ \A i, j \in 1..Len(x[2]) : i # j => x[2][i][1] # x[2][j][1]
         /\ LET D == { i \in 1..Len(x[2]) : x[2][i][1] \notin {Atype, KeyOrd} } IN
            /\ Cardinality(D) = Len(v[3])
            /\ \A n \in 1..Len(v[3]) : \E i \in D : x[2][i][1] = v[3][n][1][2] /\ Denotes(v[3][n][2], x[2][i][2])
            /\ \A i \in 1..Len(x[2]) : x[2][i][1] = Atype => x[2][i][2] = << "str", v[2] >>
            /\ \A i \in 1..Len(x[2]) : x[2][i][1] = KeyOrd => x[2][i][2] = << "arr", [ n \in 1..Len(v[3]) |-> << "str", v[3][n][1][2] >> ] >>
    [] OTHER -> x = v
RECURSIVE Equal(_, _)
\* the same data: equal values, type names and field order at every level
Equal(v, w) ==
  CASE Numeric(v) -> Numeric(w) /\ SameNum(v, w)
    [] v[1] = "arr" -> w[1] = "arr" /\ Len(w[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : Equal(v[2][i], w[2][i])
    [] v[1] = "rec" -> /\ w[1] = "rec" /\ w[2] = v[2] /\ Len(w[3]) = Len(v[3])
                       /\ \A i \in 1..Len(v[3]) : /\ w[3][i][1][2] = v[3][i][1][2] /\ (v[3][i][1][1] = "sym" => w[3][i][1][1] = "sym")
                                                  /\ Equal(v[3][i][2], w[3][i][2])
    [] OTHER -> w = v

\* ------------------------------------------------ encodings
JEsc(ch) == IF ch \in {DQ, BSL} THEN << BSL, ch >> ELSE IF ch < 32 \/ ch = 127 THEN << BSL, 117 >> \o Hex(ch, 4)
            ELSE IF ch = 128512 THEN << BSL, 117, 100, 56, 51, 100, BSL, 117, 68, 69, 48, 48 >> ELSE << ch >>
JQuote(s) == << DQ >> \o Flat([ i \in 1..Len(s) |-> JEsc(s[i]) ]) \o << DQ >>
RECURSIVE Sep(_)
Sep(ss) == IF ss = << >> THEN << >> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o << cComma >> \o Sep(Rest(ss, 2))
RECURSIVE TextOf(_)
TextOf(v) ==
  CASE v[1] = "int" -> (IF v[2] = 1 THEN << cMinus >> ELSE << >>) \o Decimal(v[3])
    [] v[1] = "u64" -> Decimal(v[2])
    \* a small dyadic number: m 2^e = m 5^-e 10^e
    [] v[1] = "float" -> (IF v[3] = 1 THEN << cMinus >> ELSE << >>) \o (IF v[5] >= 0 THEN Decimal(ShiftL(v[4], v[5])) ELSE Decimal(Mul(v[4], << 5 ^ (-v[5]) >>)) \o << 101, cMinus >> \o Decimal(<< -v[5] >>))
    [] v[1] = "bool" -> IF v[2] = 1 THEN TRUEs ELSE FALSEs
    [] v[1] = "nil" -> NULLs
    [] v[1] = "str" -> JQuote(v[2])
    [] v[1] = "arr" -> << cLB >> \o Sep([ i \in 1..Len(v[2]) |-> TextOf(v[2][i]) ]) \o << cRB >>
    [] v[1] = "rec" -> << cLC >> \o Sep(<< JQuote(Atype) \o << cColon >> \o JQuote(v[2]) >>
                         \o [ i \in 1..Len(v[3]) |-> JQuote(v[3][i][1][2]) \o << cColon >> \o TextOf(v[3][i][2]) ]
                         \o << JQuote(KeyOrd) \o << cColon >> \o << cLB >> \o Sep([ i \in 1..Len(v[3]) |-> JQuote(v[3][i][1][2]) ]) \o << cRB >> >>) \o << cRC >>
\* bytes
RECURSIVE ToBytes(_, _)
ToBytes(m, n) == IF n = 0 THEN << >> ELSE Append(ToBytes(ShiftR(m, 8), n - 1), Limb(LowBits(m, 8), 1))
Utf8Of(ch) == IF ch < 128 THEN << ch >> ELSE IF ch < 2048 THEN << 192 + ch \div 64, 128 + (ch % 64) >>
              ELSE IF ch < 65536 THEN << 224 + ch \div 4096, 128 + ((ch \div 64) % 64), 128 + (ch % 64) >>
              ELSE << 240 + ch \div 262144, 128 + ((ch \div 4096) % 64), 128 + ((ch \div 64) % 64), 128 + (ch % 64) >>
MString(s) == LET b == Flat([ i \in 1..Len(s) |-> Utf8Of(s[i]) ]) IN (IF Len(b) < 32 THEN << 160 + Len(b) >> ELSE << 217, Len(b) >>) \o b
FloatBits(v) == LET L == BitLen(v[4]) IN   \* normal numbers and zero
  IF v[4] = Zero THEN Zero ELSE Add(Add(Sub(ShiftL(v[4], 53 - L), Two(52)), ShiftL(IF v[5] + L + 1022 = 0 THEN Zero ELSE Trim(<< (v[5] + L + 1022) % BASE >>), 52)), IF v[3] = 1 THEN Two(63) ELSE Zero)
RECURSIVE BytesOf(_)
BytesOf(v) ==
  CASE v[1] = "int" -> (IF v[2] = 0 /\ Cmp(v[3], << 128 >>) < 0 THEN << Limb(v[3], 1) >> ELSE IF v[2] = 1 /\ Cmp(v[3], << 32 >>) <= 0 THEN << 256 - Limb(v[3], 1) >> ELSE << 211 >> \o ToBytes(IF v[2] = 1 THEN NegWord(v[3]) ELSE v[3], 8))
    [] v[1] = "u64" -> << 207 >> \o ToBytes(v[2], 8)
    [] v[1] = "float" -> << 203 >> \o ToBytes(FloatBits(v), 8)
    [] v[1] = "bool" -> << 194 + v[2] >>
    [] v[1] = "nil" -> << 192 >>
    [] v[1] = "str" -> MString(v[2])
    [] v[1] = "arr" -> << 144 + Len(v[2]) >> \o Flat([ i \in 1..Len(v[2]) |-> BytesOf(v[2][i]) ])
    [] v[1] = "rec" -> << 222, 0, Len(v[3]) + 2 >> \o MString(Atype) \o MString(v[2])
                       \o Flat([ i \in 1..Len(v[3]) |-> MString(v[3][i][1][2]) \o BytesOf(v[3][i][2]) ])
                       \o MString(KeyOrd) \o << 220, 0, Len(v[3]) >> \o Flat([ i \in 1..Len(v[3]) |-> MString(v[3][i][1][2]) ])

\* ------------------------------------------------ decoding
HASHs == << 104, 97, 115, 104 >>
Member(ps, k) == LET Q == { i \in 1..Len(ps) : ps[i][1] = k } IN IF Q = {} THEN 0 ELSE CHOOSE i \in Q : TRUE
RECURSIVE DecodeV(_)
DecodeV(x) ==
  CASE x[1] = "dec" -> IF x[4] = 0 /\ IntVal(x[2] = 1, x[3]) # << "bad" >> THEN << "int", x[2], x[3] >>
                       ELSE IF x[4] = 0 /\ x[2] = 0 /\ Cmp(x[3], Two(64)) < 0 THEN << "u64", x[3] >>
                       ELSE IF x[4] >= 0 THEN FloatVal(Round(x[2], TimesPow10(x[3], x[4]), 0)) ELSE FloatVal(FDiv(OfInt([s |-> x[2], m |-> x[3]]), OfInt([s |-> 0, m |-> TimesPow10(<< 1 >>, -x[4])])))
    [] x[1] = "arr" -> << "arr", [ i \in 1..Len(x[2]) |-> DecodeV(x[2][i]) ] >>
    [] x[1] = "obj" ->
         LET t == Member(x[2], Atype)  o == Member(x[2], KeyOrd)
             order == IF o = 0 THEN << >> ELSE [ i \in 1..Len(x[2][o][2][2]) |-> x[2][o][2][2][i][2] ] IN
         << "rec", IF t = 0 THEN HASHs ELSE x[2][t][2][2], [ i \in 1..Len(order) |-> << << "sym", order[i] >>, DecodeV(x[2][Member(x[2], order[i])][2]) >> ] >>
    [] OTHER -> x
=============================================================================

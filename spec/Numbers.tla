------------------------------- MODULE Numbers ------------------------------
(* The number contract (C07): 64-bit integers and unsigned integers, chars    *)
(* (32 bits) and IEEE-754 double precision floats, all given as 64-bit words  *)
(* of six limbs; exact comparisons, wrapping integer arithmetic, division and *)
(* correctly rounded (nearest, ties to even) floating arithmetic.             *)
EXTENDS BigNat

\* ---------------------------------------------------------- integers
W64(n) == LowBits(n, 64)
Pad6(n) == [i \in 1..6 |-> Limb(n, i)]
\* signed reading of a word, as sign (0/1) and magnitude
SInt(w) == IF w[6] >= 8 THEN [s |-> 1, m |-> Sub(Two(64), Trim(w))] ELSE [s |-> 0, m |-> Trim(w)]
UInt(w) == [s |-> 0, m |-> Trim(w)]
NegWord(m) == IF m = Zero THEN Zero ELSE Sub(Two(64), LowBits(m, 64))
\* the word of a signed number, modulo 2^64
Word(x) == Pad6(IF x.s = 0 THEN W64(x.m) ELSE W64(NegWord(x.m)))
SCmp(x, y) == IF x.m = Zero /\ y.m = Zero THEN 0
              ELSE IF x.s # y.s THEN (IF x.s = 1 THEN -1 ELSE 1)
              ELSE IF x.s = 0 THEN Cmp(x.m, y.m) ELSE Cmp(y.m, x.m)
SAdd(x, y) == IF x.s = y.s THEN [s |-> x.s, m |-> Add(x.m, y.m)]
              ELSE IF Cmp(x.m, y.m) >= 0 THEN [s |-> x.s, m |-> Sub(x.m, y.m)]
              ELSE [s |-> y.s, m |-> Sub(y.m, x.m)]
SNeg(x) == [s |-> 1 - x.s, m |-> x.m]
SMul(x, y) == [s |-> (x.s + y.s) % 2, m |-> Mul(x.m, y.m)]
\* truncated division
SDiv(x, y) == LET d == DivMod(x.m, y.m) IN
  [q |-> [s |-> (x.s + y.s) % 2, m |-> d[1]], r |-> [s |-> x.s, m |-> d[2]]]

\* ---------------------------------------------------------- floats
\* [c: "nan","inf","fin"; s; m; e] stands for (-1)^s * m * 2^e, m odd or zero
RECURSIVE StripBits(_, _)
StripBits(m, e) == IF m[1] % 2 = 1 THEN << m, e >> ELSE StripBits(ShiftR(m, 1), e + 1)
RECURSIVE StripLimbs(_, _)
StripLimbs(m, e) == IF m[1] # 0 THEN StripBits(m, e) ELSE StripLimbs(Tail(m), e + 12)
Canon(s, m, e) == IF m = Zero THEN [c |-> "fin", s |-> s, m |-> Zero, e |-> 0]
                  ELSE LET p == StripLimbs(m, e) IN [c |-> "fin", s |-> s, m |-> p[1], e |-> p[2]]
NaN == [c |-> "nan", s |-> 0, m |-> Zero, e |-> 0]
Inf(s) == [c |-> "inf", s |-> s, m |-> Zero, e |-> 0]
FZero(s) == [c |-> "fin", s |-> s, m |-> Zero, e |-> 0]
Decode(w) ==
  LET s == w[6] \div 8
      ex == (w[5] \div 16) + (w[6] % 8) * 256
      fr == Trim(<< w[1], w[2], w[3], w[4], w[5] % 16 >>) IN
  IF ex = 2047 THEN (IF fr = Zero THEN Inf(s) ELSE NaN)
  ELSE IF ex = 0 THEN Canon(s, fr, -1074)
  ELSE Canon(s, Add(fr, Two(52)), ex - 1075)

\* nearest double to (-1)^s * M * 2^k, ties to even
Round(s, M, k) ==
  IF M = Zero THEN FZero(s)
  ELSE LET L == BitLen(M)
           p == Min(53, L + k + 1074)          \* bits that can be kept
           sh == L - p IN
       IF p < 0 THEN FZero(s)                   \* below half of the least subnormal
       ELSE IF sh <= 0 THEN (IF L + k > 1024 THEN Inf(s) ELSE Canon(s, M, k))
       ELSE LET q == ShiftR(M, sh)
                half == Bit(M, sh - 1) = 1
                below == LowBits(M, sh - 1) # Zero
                up == half /\ (below \/ (q # Zero /\ q[1] % 2 = 1))
                q2 == IF up THEN Add(q, << 1 >>) ELSE q IN
            IF q2 # Zero /\ BitLen(q2) + k + sh > 1024 THEN Inf(s) ELSE Canon(s, q2, k + sh)
OfInt(x) == Round(IF x.m = Zero THEN 0 ELSE x.s, x.m, 0)

IsZero(f) == f.c = "fin" /\ f.m = Zero
FNeg(f) == IF f.c = "nan" THEN f ELSE [f EXCEPT !.s = 1 - f.s]
FAdd(f, g) ==
  IF f.c = "nan" \/ g.c = "nan" THEN NaN
  ELSE IF f.c = "inf" THEN (IF g.c = "inf" /\ f.s # g.s THEN NaN ELSE f)
  ELSE IF g.c = "inf" THEN g
  ELSE IF IsZero(f) /\ IsZero(g) THEN FZero(IF f.s = 1 /\ g.s = 1 THEN 1 ELSE 0)
  ELSE IF IsZero(f) THEN g ELSE IF IsZero(g) THEN f
  ELSE LET e == Min(f.e, g.e)
           x == SAdd([s |-> f.s, m |-> ShiftL(f.m, f.e - e)], [s |-> g.s, m |-> ShiftL(g.m, g.e - e)]) IN
       IF x.m = Zero THEN FZero(0) ELSE Round(x.s, x.m, e)
FSub(f, g) == FAdd(f, FNeg(g))
FMul(f, g) ==
  LET s == (f.s + g.s) % 2 IN
  IF f.c = "nan" \/ g.c = "nan" THEN NaN
  ELSE IF f.c = "inf" \/ g.c = "inf" THEN (IF IsZero(f) \/ IsZero(g) THEN NaN ELSE Inf(s))
  ELSE Round(s, Mul(f.m, g.m), f.e + g.e)
FDiv(f, g) ==
  LET s == (f.s + g.s) % 2 IN
  IF f.c = "nan" \/ g.c = "nan" THEN NaN
  ELSE IF f.c = "inf" THEN (IF g.c = "inf" THEN NaN ELSE Inf(s))
  ELSE IF g.c = "inf" THEN FZero(s)
  ELSE IF IsZero(g) THEN (IF IsZero(f) THEN NaN ELSE Inf(s))
  ELSE IF IsZero(f) THEN FZero(s)
  ELSE LET t == Max(0, 56 - BitLen(f.m) + BitLen(g.m))
           d == DivMod(ShiftL(f.m, t), g.m)
           M == Add(MulSmall(d[1], 2), IF d[2] = Zero THEN Zero ELSE << 1 >>) IN
       Round(s, M, f.e - g.e - t - 1)
\* -1, 0, 1, or 2 when unordered
FCmp(f, g) ==
  IF f.c = "nan" \/ g.c = "nan" THEN 2
  ELSE IF IsZero(f) /\ IsZero(g) THEN 0
  ELSE IF f.c = "inf" /\ g.c = "inf" THEN (IF f.s = g.s THEN 0 ELSE IF f.s = 1 THEN -1 ELSE 1)
  ELSE IF f.c = "inf" THEN (IF f.s = 1 THEN -1 ELSE 1)
  ELSE IF g.c = "inf" THEN (IF g.s = 1 THEN 1 ELSE -1)
  ELSE LET top(h) == IF h.m = Zero THEN -5000 ELSE BitLen(h.m) + h.e
           e == Min(f.e, g.e)
           mag == IF top(f) # top(g) THEN (IF top(f) > top(g) THEN 1 ELSE -1)
                  ELSE Cmp(ShiftL(f.m, f.e - e), ShiftL(g.m, g.e - e))
           fs == IF f.m = Zero THEN 0 ELSE IF f.s = 1 THEN -1 ELSE 1
           gs == IF g.m = Zero THEN 0 ELSE IF g.s = 1 THEN -1 ELSE 1 IN
       IF fs # gs THEN (IF fs < gs THEN -1 ELSE 1)
       ELSE IF fs = 1 THEN mag ELSE -mag
SameFloat(f, g) == (f.c = "nan" /\ g.c = "nan") \/ (f.c = g.c /\ f.s = g.s /\ f.m = g.m /\ f.e = g.e)

\* ---------------------------------------------------------- the language's numbers
\* operand: <<kind, word>>, kind in {"int","u64","char","float"}; chars are
\* given sign-extended
AsInt(a) == IF a[1] = "u64" THEN UInt(a[2]) ELSE SInt(a[2])
AsFloat(a) == IF a[1] = "float" THEN Decode(a[2]) ELSE OfInt(AsInt(a))
Integral(a) == a[1] # "float"

\* pairs for which an order is promised
Ordered(a, b) ==
  \/ a[1] \in {"int", "char"} /\ b[1] \in {"int", "char", "float"}
  \/ b[1] \in {"int", "char"} /\ a[1] \in {"int", "char", "float"}
  \/ a[1] = b[1]
Order(a, b) == IF a[1] = "float" \/ b[1] = "float" THEN FCmp(AsFloat(a), AsFloat(b))
               ELSE SCmp(AsInt(a), AsInt(b))
Truth(op, o) ==
  CASE op = "<"  -> o = -1
    [] op = ">"  -> o = 1
    [] op = "==" -> o = 0
    [] op = "!=" -> o # 0
    [] op = "<=" -> o \in {-1, 0}
    [] op = ">=" -> o \in {0, 1}

\* Integer results are promised modulo 2^64; an operation whose first operand
\* is a char may answer with a char (32 bits).
ModTo(kind, x) == IF kind = "char" THEN LowBits(IF x.s = 0 THEN x.m ELSE NegWord(x.m), 32)
                  ELSE Trim(Word(x))
IntResult(a, b, r, x) ==
  /\ r[1] \in {"int", "u64", "char"}
  /\ (a[1] = "int" /\ b[1] = "int" => r[1] = "int")
  /\ (a[1] = "u64" /\ b[1] = "u64" => r[1] = "u64")
  /\ (r[1] = "char" => "char" \in {a[1], b[1]})
  /\ LowBits(Trim(r[2]), IF r[1] = "char" THEN 32 ELSE 64) = ModTo(r[1], x)
FloatResult(r, f) == r[1] = "float" /\ SameFloat(Decode(r[2]), f)
IsErr(r) == r[1] = "err"

ArithOK(op, a, b, r) ==
  IF a[1] = "float" \/ b[1] = "float" THEN
    LET f == AsFloat(a)  g == AsFloat(b) IN
    CASE op = "+" -> FloatResult(r, FAdd(f, g))
      [] op = "-" -> FloatResult(r, FSub(f, g))
      [] op = "*" -> FloatResult(r, FMul(f, g))
      [] op = "/" -> \/ FloatResult(r, FDiv(f, g)) \/ (IsZero(g) /\ IsErr(r))
      [] op = "mod" -> IsErr(r)
  ELSE
    LET x == AsInt(a)  y == AsInt(b)
        mixed == (a[1] = "u64") # (b[1] = "u64") IN
    CASE op = "+" -> IntResult(a, b, r, SAdd(x, y))
      [] op = "-" -> IntResult(a, b, r, SAdd(x, SNeg(y)))
      [] op = "*" -> IntResult(a, b, r, SMul(x, y))
      [] op = "/" -> IF y.m = Zero THEN IsErr(r)
                     ELSE IF mixed THEN TRUE     \* signed by unsigned: not promised
                     ELSE LET d == SDiv(x, y) IN
                          IF d.r.m = Zero THEN IntResult(a, b, r, d.q)
                          ELSE FloatResult(r, FDiv(OfInt(x), OfInt(y)))
      [] op = "mod" -> IF y.m = Zero THEN IsErr(r)
                       ELSE IF mixed THEN TRUE
                       ELSE IntResult(a, b, r, SDiv(x, y).r)
=============================================================================

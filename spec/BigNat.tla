------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as sequences of 12-bit limbs, least            *)
(* significant first, without leading zero limbs.  (TLC's own integers have   *)
(* 32 bits.)                                                                   *)
EXTENDS Naturals, Integers, Sequences
BASE == 4096
Zero == << >>
RECURSIVE Trim(_)
Trim(a) == IF a = << >> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
Limb(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
P2 == [n \in 0..12 |-> Pow2(n)]

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, c, acc) ==
  IF i > Max(Len(a), Len(b)) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == Limb(a, i) + Limb(b, i) + c IN AddFrom(a, b, i + 1, t \div BASE, Append(acc, t % BASE))
Add(a, b) == AddFrom(a, b, 1, 0, << >>)

RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET t == a[i] - Limb(b, i) - c IN
       IF t < 0 THEN SubFrom(a, b, i + 1, 1, Append(acc, t + BASE))
                ELSE SubFrom(a, b, i + 1, 0, Append(acc, t))
Sub(a, b) == Trim(SubFrom(a, b, 1, 0, << >>))      \* for a >= b

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) > Len(b) THEN 1 ELSE -1) ELSE CmpFrom(a, b, Len(a))

RECURSIVE MulSmallFrom(_, _, _, _, _)
MulSmallFrom(a, d, i, c, acc) ==
  IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == a[i] * d + c IN MulSmallFrom(a, d, i + 1, t \div BASE, Append(acc, t % BASE))
MulSmall(a, d) == IF d = 0 THEN Zero ELSE MulSmallFrom(a, d, 1, 0, << >>)   \* d < BASE
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE MulFrom(a, b, i + 1, IF b[i] = 0 THEN acc ELSE Add(acc, Zeros(i - 1) \o MulSmall(a, b[i])))
Mul(a, b) == IF a = Zero THEN Zero ELSE MulFrom(a, b, 1, Zero)

SmallBits(x) == CHOOSE n \in 0..12 : x < P2[n] /\ (n = 0 \/ x >= P2[n - 1])
BitLen(a) == IF a = Zero THEN 0 ELSE (Len(a) - 1) * 12 + SmallBits(a[Len(a)])
ShiftL(a, n) == IF a = Zero THEN Zero
                ELSE Zeros(n \div 12) \o MulSmall(a, P2[n % 12])
ShiftR(a, n) ==
  LET q == n \div 12  r == n % 12 IN
  IF q >= Len(a) THEN Zero
  ELSE Trim([i \in 1..(Len(a) - q) |-> (a[i + q] \div P2[r]) + (Limb(a, i + q + 1) % P2[r]) * P2[12 - r]])
\* a mod 2^n
LowBits(a, n) ==
  LET q == n \div 12  r == n % 12 IN
  IF q >= Len(a) THEN a
  ELSE Trim(SubSeq(a, 1, q) \o << a[q + 1] % P2[r] >>)
Bit(a, n) == (Limb(a, n \div 12 + 1) \div P2[n % 12]) % 2

\* quotient and remainder by shifting and subtracting, b # 0
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, n, q, r) ==
  IF n < 0 THEN << q, r >>
  ELSE LET r2 == Add(MulSmall(r, 2), IF Bit(a, n) = 1 THEN << 1 >> ELSE Zero)
           ge == Cmp(r2, b) >= 0 IN
       DivFrom(a, b, n - 1, Add(MulSmall(q, 2), IF ge THEN << 1 >> ELSE Zero), IF ge THEN Sub(r2, b) ELSE r2)
DivMod(a, b) == IF Cmp(a, b) < 0 THEN << Zero, a >> ELSE DivFrom(a, b, BitLen(a) - 1, Zero, Zero)
Two(n) == ShiftL(<< 1 >>, n)
=============================================================================

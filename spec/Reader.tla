------------------------------- MODULE Reader -------------------------------
(* How source text is read: a lexer that takes one character at a time, and   *)
(* a grammar over its tokens.  Read(text) is what a parser that was given     *)
(* exactly this text must answer: the expressions, or that the text is        *)
(* unfinished, or that it is wrong.  Characters are code points.              *)
EXTENDS Numbers

\* ---------------------------------------------------------- characters
NL == 10  TAB == 9  CR == 13  SP == 32  DQ == 34  SQ == 39  BT == 96  BSL == 92
cBang == 33  cHash == 35  cPct == 37  cAmp == 38  cLP == 40  cRP == 41  cStar == 42  cPlus == 43
cComma == 44  cMinus == 45  cDot == 46  cSlash == 47  cColon == 58  cSemi == 59  cLt == 60  cEq == 61  cGt == 62
cQm == 63  cAt == 64  cLB == 91  cRB == 93  cCaret == 94  cUnd == 95  cLC == 123  cBar == 124  cRC == 125  cTilde == 126
Space == {NL, TAB, CR, SP}
Bracket == {cLP, cRP, cLB, cRB, cLC, cRC}
OpStart == {cPlus, cMinus, cStar, cLt, cGt, cEq, cBang, cAmp, cBar}
IsDig(ch) == ch >= 48 /\ ch <= 57
IsHex(ch) == IsDig(ch) \/ (ch >= 65 /\ ch <= 70) \/ (ch >= 97 /\ ch <= 102)
HexVal(ch) == IF IsDig(ch) THEN ch - 48 ELSE IF ch <= 70 THEN ch - 55 ELSE ch - 87
AllFrom(a, i, P(_)) == \A j \in i..Len(a) : P(a[j])
DigU(ch) == IsDig(ch) \/ ch = cUnd
\* a minus sign here starts a negative number rather than being the operator
SignCtx == {0, SP, TAB, NL, CR, cLP, cLB, cLC, cComma, cSemi, cColon, cPct, cCaret, cTilde, cPlus, cMinus, cStar, cSlash, cLt, cGt, cEq, cBang, cAmp, cBar}

\* ---------------------------------------------------------- words
Rest(a, i) == SubSeq(a, i, Len(a))
Unsign(a) == IF Len(a) > 0 /\ a[1] = cMinus THEN Rest(a, 2) ELSE a
Signed(a) == Len(a) > 0 /\ a[1] = cMinus
IsDecU(b) == Len(b) > 0 /\ IsDig(b[1]) /\ AllFrom(b, 2, DigU)
IsDecimal(a) == IsDecU(Unsign(a))
Radix(b, x) == Len(b) > 2 /\ b[1] = 48 /\ b[2] = x
IsOct(ch) == ch >= 48 /\ ch <= 55
IsBin(ch) == ch \in {48, 49}
IsHexW(b) == Radix(b, 120) /\ AllFrom(b, 3, IsHex)
IsOctW(b) == Radix(b, 111) /\ AllFrom(b, 3, IsOct)
IsBinW(b) == Radix(b, 98) /\ AllFrom(b, 3, IsBin)
ULLs == << 85, 76, 76 >>
IsULL(a) == /\ Len(a) > 3 /\ Rest(a, Len(a) - 2) = ULLs
            /\ LET b == SubSeq(a, 1, Len(a) - 3) IN IsHexW(b) \/ IsOctW(b) \/ AllFrom(b, 1, IsDig)
\* position of the first character of a in the set, or 0
PosIn(a, S) == LET Q == { i \in 1..Len(a) : a[i] \in S } IN IF Q = {} THEN 0 ELSE CHOOSE i \in Q : \A j \in Q : i <= j
\* digits and underscores with one point: 1. 1.5 .5
IsFrac(b) == LET p == PosIn(b, {cDot}) IN
  /\ p > 0
  /\ AllFrom(Rest(b, p + 1), 1, DigU)
  /\ IF p = 1 THEN Len(b) > 1 /\ IsDig(b[2]) ELSE IsDecU(SubSeq(b, 1, p - 1))
IsExp(b) == LET p == PosIn(b, {101, 69}) IN
  /\ p > 1
  /\ LET m == SubSeq(b, 1, p - 1)  x == Rest(b, p + 1)
         x2 == IF Len(x) > 0 /\ x[1] \in {cPlus, cMinus} THEN Rest(x, 2) ELSE x IN
     /\ IsDecU(m) \/ (IsFrac(m) /\ m[1] # cDot)
     /\ IsDecU(x2)
IsFloat(a) == LET b == Unsign(a) IN IsFrac(b) \/ IsExp(b)
IsInf(a) == LET b == IF Len(a) > 0 /\ a[1] \in {cMinus, cPlus} THEN Rest(a, 2) ELSE a IN b \in {<< 73, 110, 102 >>, << 105, 110, 102 >>}

\* characters that no part of a name may contain, and those that may not start one
NameNot == {SQ, cHash, cColon, cSemi, BSL, cTilde, cAt, cLB, cRB, cLC, cRC, cCaret, cBar, DQ, cLP, cRP, cPct, cComma}
Start1(ch) == ch \notin NameNot \cup {cQm, cAmp} /\ ~ IsDig(ch)
Rest1(ch) == ch \notin NameNot \cup {cAmp, cStar, cMinus}
IsName(a) ==
  \E k \in {0, 1} :
    /\ k = 1 => Len(a) > 0 /\ a[1] \in {cHash, cQm}
    /\ Len(a) > k /\ Start1(a[k + 1]) /\ AllFrom(a, k + 2, Rest1)
DotStart(ch) == ch \notin NameNot \cup {cDot} /\ ~ IsDig(ch)
DotRest(ch) == ch \notin NameNot \cup {cDot, cStar, cPlus, cMinus}
RECURSIVE Split(_, _, _, _)
Split(a, i, cur, acc) ==
  IF i > Len(a) THEN Append(acc, cur)
  ELSE IF a[i] = cDot THEN Split(a, i + 1, << >>, Append(acc, cur))
  ELSE Split(a, i + 1, Append(cur, a[i]), acc)
IsDotName(a) ==
  \/ a = << cDot >>
  \/ /\ PosIn(a, {cDot}) > 0
     /\ LET s == Split(a, 1, << >>, << >>)
            from == IF a[1] = cDot THEN 2 ELSE 1 IN
        \A i \in from..Len(s) : Len(s[i]) > 0 /\ DotStart(s[i][1]) /\ AllFrom(s[i], 2, DotRest)

\* ---------------------------------------------------------- what numerals denote
RECURSIVE NatOf(_, _, _, _)
NatOf(b, i, radix, acc) ==
  IF i > Len(b) THEN acc
  ELSE IF b[i] = cUnd THEN NatOf(b, i + 1, radix, acc)
  ELSE NatOf(b, i + 1, radix, Add(MulSmall(acc, radix), IF HexVal(b[i]) = 0 THEN Zero ELSE << HexVal(b[i]) >>))
\* an integer literal must fit 64 bits
IntVal(neg, m) == IF Cmp(m, IF neg THEN Two(63) ELSE Sub(Two(63), << 1 >>)) > 0 THEN << "bad" >>
                  ELSE << "int", IF neg /\ m # Zero THEN 1 ELSE 0, m >>
NoUnd(b) == SelectSeq(b, LAMBDA ch : ch # cUnd)
RECURSIVE SmallNat(_, _, _)
SmallNat(b, i, acc) == IF i > Len(b) THEN acc ELSE IF acc > 100000 THEN 100001 ELSE SmallNat(b, i + 1, acc * 10 + b[i] - 48)
\* 10^0, 10^20, 10^40, .. 10^400
PowerTable == <<
  << 1 >>,
  << 0, 256, 3427, 1506, 3015, 86 >>,
  << 0, 0, 0, 1552, 2549, 2747, 1215, 1482, 451, 671, 3427, 1 >>,
  << 0, 0, 0, 0, 0, 3473, 1424, 2374, 556, 1572, 471, 1104, 2594, 377, 1830, 1266, 159 >>,
  << 0, 0, 0, 0, 0, 0, 256, 3308, 1892, 2594, 2659, 396, 4004, 606, 379, 3293, 3952, 3582, 3947, 993, 3562, 1529, 3 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 3856, 744, 2216, 1072, 2738, 1994, 282, 2274, 3648, 2220, 3059, 3296, 1220, 632, 2827, 1998, 1219, 601, 2477, 292 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3105, 2208, 1979, 2625, 3982, 1386, 4009, 1145, 1542, 2851, 3403, 3589, 3167, 2061, 2570, 4074, 240, 3476, 2190, 3338, 2688, 1713, 803, 6 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 256, 3717, 1457, 3937, 1764, 2665, 1970, 3096, 3617, 1104, 688, 3380, 765, 2030, 1282, 2403, 1817, 1737, 362, 2793, 2276, 3624, 130, 3863, 1766, 2633, 1761, 537 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2064, 813, 4028, 244, 557, 82, 645, 1807, 3899, 1010, 1393, 1043, 1057, 3548, 1495, 1593, 2461, 2329, 3973, 2076, 2339, 1536, 333, 1715, 2968, 1399, 1962, 3681, 2943, 2578, 1558, 11 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2993, 1144, 3961, 2, 1868, 3099, 8, 93, 2831, 1653, 3516, 1193, 2961, 729, 3582, 3954, 1616, 2892, 644, 1655, 3585, 3574, 3110, 913, 1300, 2511, 2396, 1319, 2741, 1762, 637, 2278, 2506, 422, 987 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 256, 2862, 3257, 1875, 648, 2360, 3862, 3283, 2667, 2883, 3721, 2173, 2206, 1120, 3397, 1668, 1548, 3514, 509, 2361, 3876, 317, 2284, 774, 1063, 2884, 3737, 1054, 1665, 3131, 714, 1408, 497, 1669, 729, 602, 3446, 2263, 3697, 20 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 272, 1363, 2475, 3360, 3160, 2656, 1739, 1554, 1878, 2104, 2588, 3094, 2036, 1880, 2166, 1102, 3884, 1148, 416, 2532, 2053, 3216, 1598, 2976, 2208, 3214, 1999, 1374, 2752, 3615, 1202, 20, 239, 2027, 1056, 1842, 549, 3351, 2433, 2959, 3812, 90, 1813 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3137, 625, 1866, 1761, 3671, 1578, 2796, 2202, 3874, 3550, 763, 2922, 4068, 3614, 535, 3039, 870, 2051, 1160, 891, 3134, 2946, 447, 3561, 2476, 129, 1124, 3407, 2638, 4086, 3637, 1696, 1878, 326, 3001, 1037, 3018, 675, 2168, 2486, 2866, 3478, 4037, 3930, 2492, 1606, 38 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 256, 3047, 2428, 2536, 3446, 3622, 1827, 1252, 2155, 170, 1465, 2338, 819, 1436, 119, 2938, 2324, 2025, 724, 2423, 1775, 1946, 1038, 1547, 3137, 760, 201, 16, 1535, 498, 1729, 1475, 1058, 2443, 3231, 413, 185, 3955, 1994, 1535, 2128, 813, 2820, 1385, 695, 3117, 2114, 1623, 266, 4079, 3329 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2576, 1257, 1485, 3948, 2006, 3044, 3705, 3033, 3987, 4001, 1574, 375, 837, 1675, 3724, 2905, 3554, 3672, 973, 2255, 4085, 582, 338, 1916, 2693, 1369, 3703, 806, 1653, 1911, 1585, 1719, 3774, 2655, 4048, 2531, 918, 1000, 851, 1440, 2688, 2439, 795, 1014, 244, 287, 3506, 2627, 3461, 1430, 447, 683, 410, 2111, 70 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3537, 756, 149, 3397, 3605, 1090, 2795, 1070, 2867, 4003, 2614, 4045, 1763, 2170, 2882, 2039, 3095, 75, 3213, 2002, 3590, 2296, 2794, 2919, 3219, 941, 1387, 3272, 182, 3485, 2393, 256, 1164, 3419, 2211, 2750, 3908, 2358, 1325, 2125, 3518, 1393, 540, 2332, 159, 1409, 1188, 2154, 2733, 3287, 1223, 2273, 2496, 2981, 1881, 2048, 968, 2020, 1 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 256, 2480, 156, 3861, 3245, 3197, 3372, 986, 1848, 1235, 966, 3335, 3431, 3750, 2054, 2490, 2129, 3887, 1027, 2604, 737, 2565, 826, 258, 2519, 1850, 1157, 2980, 729, 3313, 2051, 2161, 2928, 937, 732, 3717, 594, 3675, 2894, 383, 3847, 2658, 3661, 3611, 3031, 170, 3407, 1582, 2956, 3783, 3769, 540, 1600, 3398, 768, 344, 1697, 1886, 3299, 3884, 3881, 2114, 129 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 784, 3713, 2614, 3175, 2462, 354, 2804, 1008, 841, 3327, 1446, 1914, 931, 3042, 676, 1464, 3234, 764, 114, 849, 1151, 2516, 2238, 315, 2242, 1258, 3122, 3220, 941, 2531, 2748, 4075, 1708, 807, 3105, 740, 3378, 316, 1086, 2331, 254, 871, 3289, 2997, 1925, 329, 3394, 431, 1740, 3972, 2269, 3683, 2002, 120, 1897, 3345, 2562, 4065, 1521, 1003, 2990, 2970, 4035, 3814, 3080, 3041, 2 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 97, 1659, 2586, 16, 210, 3612, 5, 957, 627, 3505, 3647, 2546, 675, 2526, 434, 3622, 988, 678, 1212, 608, 2964, 3417, 368, 2406, 805, 3118, 1465, 183, 276, 706, 3869, 1537, 874, 2945, 2978, 3363, 905, 2007, 241, 3574, 2775, 3180, 3883, 1693, 1798, 2163, 1208, 3794, 774, 1641, 3819, 1174, 3865, 3510, 909, 1881, 1154, 1511, 2614, 1769, 453, 2931, 1680, 3155, 2114, 3202, 2446, 2791, 3620, 237 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 256, 3465, 1515, 1596, 885, 887, 910, 2979, 988, 3663, 3369, 3201, 2530, 1271, 1866, 2503, 3135, 1943, 462, 2154, 3651, 3167, 2506, 907, 127, 3322, 2190, 3285, 3098, 3674, 3299, 4044, 2138, 3952, 499, 925, 1757, 2093, 206, 3352, 375, 1135, 1689, 350, 718, 1166, 1158, 313, 2394, 17, 254, 2100, 965, 1047, 2379, 2294, 628, 1981, 613, 3708, 3490, 1419, 2567, 144, 952, 1555, 3515, 45, 1161, 3535, 2022, 1028, 590, 153, 5 >>,
  << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3088, 4009, 2018, 1079, 2946, 2544, 814, 3035, 830, 582, 3386, 1162, 2362, 2625, 2410, 3657, 3592, 89, 3613, 625, 1482, 199, 3614, 2067, 1988, 3508, 1900, 231, 2986, 2393, 3301, 566, 4068, 1063, 3162, 3981, 843, 3974, 3594, 3325, 3318, 748, 2571, 2374, 3305, 2131, 1577, 398, 1709, 3086, 229, 18, 3061, 183, 3677, 48, 2872, 4013, 1290, 3009, 184, 1305, 2303, 3621, 2093, 1349, 2926, 909, 1916, 3009, 623, 3279, 3249, 4083, 2419, 3985, 3783, 436 >> >>
SmallPowers == [ i \in 0..3 |-> CASE i = 0 -> 1 [] i = 1 -> 10 [] i = 2 -> 100 [] i = 3 -> 1000 ]
RECURSIVE TimesPow10(_, _)
TimesPow10(a, n) == IF n < 4 THEN MulSmall(a, SmallPowers[n])
                    ELSE IF n < 20 THEN TimesPow10(MulSmall(a, 1000), n - 3)
                    ELSE IF n <= 400 THEN TimesPow10(Mul(PowerTable[n \div 20 + 1], a), n % 20)
                    ELSE TimesPow10(Mul(PowerTable[21], a), n - 400)
\* m * 10^k against a * 2^j
CmpDec(m, k, a, j) ==
  LET l == IF j < 0 THEN ShiftL(m, -j) ELSE m
      r == IF j > 0 THEN ShiftL(a, j) ELSE a IN
  IF k >= 0 THEN Cmp(TimesPow10(l, k), r) ELSE Cmp(l, TimesPow10(r, -k))
\* f is the double nearest to (-1)^s * m * 10^k, ties to even
Nearest(s, m, k, f) ==
  /\ f.c = "fin" /\ f.s = s
  /\ IF m = Zero \/ k < -1500 THEN f.m = Zero
     ELSE IF f.m = Zero THEN CmpDec(m, k, << 1 >>, -1075) <= 0
     ELSE LET q == Max(BitLen(f.m) + f.e - 53, -1074)      \* unit in the last place
              w == ShiftL(f.m, f.e - q)
              even == w[1] % 2 = 0
              up == CmpDec(m, k, Add(MulSmall(w, 2), << 1 >>), q - 1)
              edge == BitLen(w) = 53 /\ w = Two(52) /\ q > -1074
              lo == IF edge THEN CmpDec(m, k, Sub(MulSmall(w, 4), << 1 >>), q - 2)
                    ELSE CmpDec(m, k, Sub(MulSmall(w, 2), << 1 >>), q - 1) IN
          /\ f.e >= q
          /\ up < 0 \/ (up = 0 /\ even)
          /\ lo > 0 \/ (lo = 0 /\ even)
\* the nearest double would be infinite
TooLarge(m, k) == m # Zero /\ (k > 400 \/ (k > -1500 /\ CmpDec(m, k, Sub(Two(54), << 1 >>), 970) >= 0))
\* the exact value of a float literal: <<"dec", sign, m, k>> for m * 10^k
FloatOf(a) ==
  LET s == IF Signed(a) THEN 1 ELSE 0
      b == NoUnd(Unsign(a))
      p == PosIn(b, {101, 69})
      mant == IF p = 0 THEN b ELSE SubSeq(b, 1, p - 1)
      ex == IF p = 0 THEN << >> ELSE Rest(b, p + 1)
      exneg == Len(ex) > 0 /\ ex[1] = cMinus
      exd == IF Len(ex) > 0 /\ ex[1] \in {cMinus, cPlus} THEN Rest(ex, 2) ELSE ex
      e == SmallNat(exd, 1, 0)
      dot == PosIn(mant, {cDot})
      digs == IF dot = 0 THEN mant ELSE SubSeq(mant, 1, dot - 1) \o Rest(mant, dot + 1)
      k == (IF exneg THEN -e ELSE e) - (IF dot = 0 THEN 0 ELSE Len(mant) - dot) IN
  << "dec", s, NatOf(digs, 1, 10, Zero), k >>
FloatVal(f) == << "float", f.c, f.s, f.m, f.e >>

\* ---------------------------------------------------------- tokens
\* <<type, data>>; "val" carries a finished value
Sym(s) == << "sym", s >>
\* a symbol written with a colon at its end (Infix keeps the difference)
Symc(s) == Sym(s)
Str2 == [and |-> << 97, 110, 100 >>, or |-> << 111, 114 >>]
Atom1(a) ==
  LET b == Unsign(a) IN
  CASE a = << BSL >> -> << "\\", 0 >>
    [] a = << 116, 114, 117, 101 >> -> << "val", << "bool", 1 >> >>
    [] a = << 102, 97, 108, 115, 101 >> -> << "val", << "bool", 0 >> >>
    [] IsULL(a) -> LET c == SubSeq(a, 1, Len(a) - 3)
                       m == IF IsHexW(c) THEN NatOf(Rest(c, 3), 1, 16, Zero) ELSE IF IsOctW(c) THEN NatOf(Rest(c, 3), 1, 8, Zero) ELSE NatOf(c, 1, 10, Zero) IN
                   << "val", IF BitLen(m) > 64 THEN << "bad" >> ELSE << "u64", m >> >>
    [] IsDecimal(a) -> << "val", IntVal(Signed(a), NatOf(b, 1, 10, Zero)) >>
    [] IsHexW(b) -> << "val", IntVal(Signed(a), NatOf(Rest(b, 3), 1, 16, Zero)) >>
    [] IsOctW(b) -> << "val", IntVal(Signed(a), NatOf(Rest(b, 3), 1, 8, Zero)) >>
    [] IsBinW(b) -> << "val", IntVal(Signed(a), NatOf(Rest(b, 3), 1, 2, Zero)) >>
    [] IsFloat(a) -> LET f == FloatOf(a) IN << "val", IF TooLarge(f[3], f[4]) THEN << "bad" >> ELSE f >>
    [] a \in {<< 78, 97, 78 >>, << 110, 97, 110 >>} -> << "val", FloatVal(NaN) >>
    [] IsInf(a) -> << "val", << "float", "inf", IF a[1] = cMinus THEN 1 ELSE 0, Zero, 0 >> >>
    [] IsDotName(a) -> << "sym", a >>
    [] OTHER -> << "none", 0 >>
\* the word in the buffer, which may end in one colon
Atom(w) ==
  LET colon == w[Len(w)] = cColon
      a == IF colon THEN SubSeq(w, 1, Len(w) - 1) ELSE w IN
  IF a = << >> THEN << ":", 0 >>
  ELSE LET t == Atom1(a) IN
       \* nil is the empty list, written out
       IF a = << 110, 105, 108 >> /\ ~ colon THEN << "val", << "nil" >> >>
       ELSE IF t[1] # "none" THEN t
       ELSE IF IsName(a) THEN << IF colon THEN "symc" ELSE "sym", a >>
       ELSE << "bad", 0 >>

\* ---------------------------------------------------------- the lexer
Lex0 == [mode |-> "word", buf |-> << >>, p1 |-> 0, pre |-> 0, op |-> 0, esc |-> << >>, toks |-> << >>, bad |-> FALSE]
Emit(L, t) == [L EXCEPT !.toks = Append(L.toks, t)]
Fail(L) == [L EXCEPT !.bad = TRUE]
Dump(L) == IF L.buf = << >> THEN L
           ELSE LET t == Atom(L.buf) IN
                IF t[1] = "bad" THEN Fail(L) ELSE [L EXCEPT !.toks = Append(L.toks, t), !.buf = << >>]
Ops2 == {<< cPlus, cPlus >>, << cMinus, cMinus >>, << cPlus, cEq >>, << cMinus, cEq >>, << cEq, cEq >>, << cLt, cEq >>, << cGt, cEq >>, << cLt, cMinus >>,
         << cMinus, cGt >>, << cStar, cEq >>, << cSlash, cEq >>, << cStar, cStar >>, << cBang, cEq >>, << cLt, cBang >>}
Escapes == [ x \in {110, 114, 97, 116, 98, 102, 118, BSL, DQ, SQ, cHash} |->
             CASE x = 110 -> 10 [] x = 114 -> 13 [] x = 97 -> 7 [] x = 116 -> 9 [] x = 98 -> 8 [] x = 102 -> 12 [] x = 118 -> 11 [] OTHER -> x ]
EscLen(ch) == CASE ch = 120 -> 2 [] ch = 117 -> 4 [] ch = 85 -> 8
RECURSIVE HexNat(_, _, _)
HexNat(b, i, acc) == IF i > Len(b) THEN acc ELSE IF acc > 100000000 THEN acc ELSE HexNat(b, i + 1, acc * 16 + HexVal(b[i]))
\* esc: the escape collected so far
Escaped(L, ch, back, instr) ==
  IF L.esc = << >> THEN
    IF ch \in DOMAIN Escapes THEN [L EXCEPT !.buf = Append(L.buf, Escapes[ch]), !.mode = back]
    ELSE IF ch \in {120, 117, 85} THEN [L EXCEPT !.esc = << ch >>]
    ELSE Fail(L)
  ELSE IF ~ IsHex(ch) THEN Fail(L)
  ELSE LET e == Append(L.esc, ch)
           v == HexNat(e, 2, 0) IN
       IF Len(e) < 1 + EscLen(e[1]) THEN [L EXCEPT !.esc = e]
       ELSE IF e[1] # 120 /\ (v > 1114111 \/ (v >= 55296 /\ v <= 57343)) THEN Fail(L)
       \* a byte that is no character of its own is written 1114112 + byte
       ELSE [L EXCEPT !.buf = Append(L.buf, IF e[1] = 120 /\ instr /\ v > 127 THEN 1114112 + v ELSE v), !.mode = back, !.esc = << >>]
Brackets == [ x \in Bracket |-> CASE x = cLP -> "(" [] x = cRP -> ")" [] x = cLB -> "[" [] x = cRB -> "]" [] x = cLC -> "{" [] x = cRC -> "}" ]

RECURSIVE LexStep(_, _)
ToWord(L) == [L EXCEPT !.mode = "word"]
LexWord(L, ch) ==
  LET n == Len(L.buf) IN
  CASE ch \in {cPlus, cMinus} /\ n > 1 /\ L.buf[n] \in {101, 69} /\ L.p1 \in {101, 69} /\ (LET m == SubSeq(L.buf, 1, n - 1) IN IsDecimal(m) \/ IsFloat(m)) ->
        [L EXCEPT !.buf = Append(L.buf, ch)]
    [] ch \in OpStart -> LET D == Dump(L) IN [D EXCEPT !.mode = "op", !.op = ch, !.pre = L.p1]
    [] ch = cSlash -> [L EXCEPT !.mode = "slash"]
    [] ch = BT -> IF n > 0 THEN Fail(L) ELSE [Emit(L, << "bt0", 0 >>) EXCEPT !.mode = "raw"]
    [] ch = DQ -> IF n > 0 THEN Fail(L) ELSE [L EXCEPT !.mode = "str"]
    [] ch = SQ -> IF n > 0 THEN Fail(L) ELSE [L EXCEPT !.mode = "char"]
    [] ch = cSemi -> Emit(Dump(L), << ";", 0 >>)
    [] ch = cComma -> Emit(Dump(L), << ",", 0 >>)
    [] ch = cColon -> [L EXCEPT !.mode = "colon"]
    [] ch = cPct -> IF n > 0 THEN Fail(L) ELSE Emit(L, << "%", 0 >>)
    [] ch = cCaret -> IF n > 0 THEN Fail(L) ELSE Emit(L, << "^", 0 >>)
    [] ch = cTilde -> IF n > 0 THEN Fail(L) ELSE [L EXCEPT !.mode = "tilde"]
    [] ch \in Bracket -> Emit(Dump(L), << Brackets[ch], 0 >>)
    [] ch \in Space -> Dump(L)
    [] OTHER -> [L EXCEPT !.buf = Append(L.buf, ch)]
OpSym(o) == << "sym", << o >> >>
LexOp(L, ch) ==
  LET two == << L.op, ch >> IN
  IF L.op = cMinus /\ L.pre \in SignCtx /\ IsDig(ch) THEN [ToWord(L) EXCEPT !.buf = two]
  ELSE IF L.op = cMinus /\ L.pre \in SignCtx /\ ch = cDot THEN [L EXCEPT !.mode = "minusdot"]
  ELSE IF two = << cAmp, cAmp >> THEN Emit(ToWord(L), Sym(Str2.and))
  ELSE IF two = << cBar, cBar >> THEN Emit(ToWord(L), Sym(Str2.or))
  ELSE IF two \in Ops2 THEN Emit(ToWord(L), Sym(two))
  ELSE LexStep(Emit(ToWord(L), OpSym(L.op)), ch)
\* a number ends at the colon of a slice: 1:2
SliceBound(b) == IsDecU(Unsign(b)) /\ (Signed(b) => Len(b) > 1)
LexColon(L, ch) ==
  IF ch = cEq THEN Emit(ToWord(Dump(L)), << ":=", 0 >>)
  ELSE IF SliceBound(L.buf) THEN LexStep(Emit(ToWord(Dump(L)), << ":", 0 >>), ch)
  ELSE LET D == Dump([L EXCEPT !.buf = Append(L.buf, cColon)]) IN IF D.bad THEN D ELSE LexStep(ToWord(D), ch)
LexStep(L, ch) ==
  IF L.bad THEN L
  ELSE CASE L.mode = "word" -> LexWord(L, ch)
    [] L.mode = "op" -> LexOp(L, ch)
    [] L.mode = "minusdot" ->
         IF IsDig(ch) THEN LexStep([ToWord(L) EXCEPT !.buf = << cMinus, cDot >>], ch)
         ELSE LexStep([Emit(ToWord(L), OpSym(cMinus)) EXCEPT !.buf = << cDot >>], ch)
    [] L.mode = "slash" ->
         IF ch = cSlash THEN [Dump(L) EXCEPT !.mode = "line"]
         ELSE IF ch = cStar THEN LET D == Dump(L) IN [Emit(D, << "com0", 0 >>) EXCEPT !.mode = "block"]
         ELSE LET D == Dump(L) IN IF D.bad THEN D ELSE LexOp([D EXCEPT !.op = cSlash, !.pre = 1], ch)
    [] L.mode = "colon" -> LexColon(L, ch)
    [] L.mode = "tilde" -> IF ch = cAt THEN Emit(ToWord(L), << "~@", 0 >>) ELSE LexStep(Emit(ToWord(L), << "~", 0 >>), ch)
    [] L.mode = "line" -> IF ch = NL THEN Emit(ToWord(L), << "com", 0 >>) ELSE L
    [] L.mode = "block" -> IF ch = cStar THEN [L EXCEPT !.mode = "blockstar"] ELSE L
    [] L.mode = "blockstar" -> IF ch = cSlash THEN Emit(ToWord(L), << "com1", 0 >>) ELSE IF ch = cStar THEN L ELSE [L EXCEPT !.mode = "block"]
    [] L.mode = "raw" -> IF ch = BT THEN [Emit(ToWord(L), << "bt", L.buf >>) EXCEPT !.buf = << >>] ELSE [L EXCEPT !.buf = Append(L.buf, ch)]
    [] L.mode = "str" -> IF ch = BSL THEN [L EXCEPT !.mode = "stresc"]
                         ELSE IF ch = DQ THEN [Emit(ToWord(L), << "str", L.buf >>) EXCEPT !.buf = << >>]
                         ELSE [L EXCEPT !.buf = Append(L.buf, ch)]
    [] L.mode = "stresc" -> Escaped(L, ch, "str", TRUE)
    [] L.mode = "char" -> IF ch = BSL THEN [L EXCEPT !.mode = "charesc"]
                          ELSE IF ch = SQ THEN (IF Len(L.buf) # 1 THEN Fail(L) ELSE [Emit(ToWord(L), << "val", << "char", L.buf[1] >> >>) EXCEPT !.buf = << >>])
                          ELSE [L EXCEPT !.buf = Append(L.buf, ch)]
    [] L.mode = "charesc" -> Escaped(L, ch, "char", FALSE)
Step(L, ch) == [LexStep(L, ch) EXCEPT !.p1 = ch]
RECURSIVE LexFrom(_, _, _)
LexFrom(L, t, i) == IF i > Len(t) \/ L.bad THEN L ELSE LexFrom(Step(L, t[i]), t, i + 1)

\* ---------------------------------------------------------- the grammar
\* results: s is "ok", "err", "in" (ends inside of something) or "at" (an
\* expression has not begun, or could still go on)
Ok(v, n) == [s |-> "ok", v |-> v, n |-> n]
Err == [s |-> "err", v |-> 0, n |-> 0]
In == [s |-> "in", v |-> 0, n |-> 0]
At == [s |-> "at", v |-> 0, n |-> 0]
MkList(acc) == IF acc = << >> THEN << "nil" >> ELSE << "list", acc >>
MkDotted(acc, tl) == IF tl[1] = "nil" THEN MkList(acc)
                     ELSE IF tl[1] = "list" THEN << "list", acc \o tl[2] >>
                     ELSE IF tl[1] = "dotted" THEN << "dotted", acc \o tl[2], tl[3] >>
                     ELSE << "dotted", acc, tl >>
sQuote == << 113, 117, 111, 116, 101 >>
sSyntax == << 115, 121, 110, 116, 97, 120, 81, 117, 111, 116, 101 >>
sUnquote == << 117, 110, 113, 117, 111, 116, 101 >>
sSplice == << 117, 110, 113, 117, 111, 116, 101, 45, 115, 112, 108, 105, 99, 105, 110, 103 >>
sHashW == << 104, 97, 115, 104 >>
sInfix == << 105, 110, 102, 105, 120 >>
sFor == << 102, 111, 114 >>
Comments == {"com0", "com", "com1"}
RECURSIVE SkipCom(_, _)
SkipCom(t, j) == IF j <= Len(t) /\ t[j][1] \in Comments THEN SkipCom(t, j + 1) ELSE j
RECURSIVE PExpr(_, _, _, _), PList(_, _, _, _), PArr(_, _, _), PInfix(_, _, _), PCom(_, _)
\* i: next token; top: outside of every bracket; fin: no token can follow
PExpr(t, i, top, fin) ==
  IF i > Len(t) THEN (IF top THEN At ELSE In)
  ELSE LET k == t[i][1]
           wrap(name) == LET r == PExpr(t, i + 1, top, fin) IN IF r.s = "ok" THEN Ok(<< "list", << Sym(name), r.v >> >>, r.n) ELSE r IN
  CASE k = "(" -> PList(t, i + 1, ")", << >>)
    [] k = "[" -> PArr(t, i + 1, << >>)
    [] k = "{" ->
         LET j == SkipCom(t, i + 1)
             hash == PList(t, i + 1, "}", << Sym(sHashW) >>) IN
         IF j > Len(t) THEN In
         ELSE CASE t[j][1] = "symc" -> IF j + 1 > Len(t) THEN In
                                       ELSE IF t[j + 1] = << "sym", sFor >> THEN PInfix(t, i + 1, << >>) ELSE hash
                [] t[j][1] = "}" -> Ok(<< "hash", << >> >>, j + 1)
                [] t[j][1] = "str" -> IF j + 1 > Len(t) THEN In ELSE IF t[j + 1][1] = ":" THEN hash ELSE PInfix(t, i + 1, << >>)
                [] t[j][1] = "bt0" -> IF j + 2 > Len(t) THEN In ELSE IF t[j + 2][1] = ":" THEN hash ELSE PInfix(t, i + 1, << >>)
                [] OTHER -> PInfix(t, i + 1, << >>)
    [] k = "%" -> wrap(sQuote)
    [] k = "^" -> wrap(sSyntax)
    [] k = "~" -> wrap(sUnquote)
    [] k = "~@" -> wrap(sSplice)
    [] k = ":=" -> Ok(Sym(<< cColon, cEq >>), i + 1)
    [] k = ":" -> Ok(Sym(<< cColon >>), i + 1)
    [] k = "val" -> IF t[i][2][1] = "bad" THEN Err ELSE Ok(t[i][2], i + 1)
    [] k = "str" -> Ok(<< "str", t[i][2] >>, i + 1)
    [] k = "bt0" -> IF i + 1 > Len(t) THEN In ELSE Ok(<< "str", t[i + 1][2] >>, i + 2)
    [] k = "sym" ->
         IF t[i][2] \in {<< cMinus >>, << cPlus >>} THEN
           IF i + 1 > Len(t) THEN (IF ~ top THEN In ELSE IF fin THEN Ok(t[i], i + 1) ELSE At)
           ELSE IF t[i + 1] = << "val", << "float", "inf", 0, Zero, 0 >> >> THEN Ok(<< "float", "inf", IF t[i][2] = << cMinus >> THEN 1 ELSE 0, Zero, 0 >>, i + 2)
           ELSE Ok(t[i], i + 1)
         ELSE Ok(t[i], i + 1)
    [] k = "symc" -> Ok(Symc(t[i][2]), i + 1)
    [] k = "com" -> Ok(<< "comment" >>, i + 1)
    [] k = "com0" -> PCom(t, i + 1)
    [] k = "," -> Ok(<< "comma" >>, i + 1)
    [] k = ";" -> Ok(<< "semi" >>, i + 1)
    [] OTHER -> Err
PCom(t, i) == IF i > Len(t) THEN In ELSE IF t[i][1] = "com1" THEN Ok(<< "comment" >>, i + 1) ELSE PCom(t, i + 1)
PList(t, i, close, acc) ==
  IF i > Len(t) THEN In
  ELSE IF t[i][1] = close THEN Ok(MkList(acc), i + 1)
  ELSE LET r == PExpr(t, i, FALSE, FALSE) IN
       IF r.s # "ok" THEN r
       ELSE IF r.n > Len(t) THEN In
       ELSE IF t[r.n][1] # "\\" THEN PList(t, r.n, close, Append(acc, r.v))
       ELSE LET q == PExpr(t, r.n + 1, FALSE, FALSE) IN
            IF q.s # "ok" THEN q
            ELSE IF q.n > Len(t) THEN In
            ELSE IF t[q.n][1] # ")" THEN Err
            ELSE Ok(MkDotted(Append(acc, r.v), q.v), q.n + 1)
PArr(t, i, acc) ==
  IF i > Len(t) THEN In
  ELSE IF t[i][1] = "," THEN PArr(t, i + 1, acc)
  ELSE IF t[i][1] = "]" THEN Ok(<< "arr", acc >>, i + 1)
  ELSE LET r == PExpr(t, i, FALSE, FALSE) IN IF r.s # "ok" THEN r ELSE PArr(t, r.n, Append(acc, r.v))
PInfix(t, i, acc) ==
  IF i > Len(t) THEN In
  ELSE IF t[i][1] = "}" THEN Ok(<< "list", << Sym(sInfix) >> \o (IF acc = << >> THEN << >> ELSE << << "arr", acc >> >>) >>, i + 1)
  ELSE LET r == PExpr(t, i, FALSE, FALSE) IN IF r.s # "ok" THEN r ELSE PInfix(t, r.n, Append(acc, r.v))
RECURSIVE PTop(_, _, _, _)
PTop(t, i, acc, fin) ==
  IF i > Len(t) THEN [s |-> "at", v |-> acc]
  ELSE LET r == PExpr(t, i, TRUE, fin) IN
       IF r.s = "ok" THEN PTop(t, r.n, Append(acc, r.v), fin)
       ELSE [s |-> IF r.s = "at" THEN "dangling" ELSE r.s, v |-> acc]

\* what a lexer that has seen exactly some text makes a parser answer:
\* "ok", "err", "more" (inside of a bracket, string, raw string or block
\* comment) or "open" (a prefix such as % without its expression, or a char
\* literal that has not ended); with the expressions that are complete
Answer(L) ==
  LET a == PTop(L.toks, 1, << >>, FALSE) IN
  IF L.bad \/ a.s = "err" THEN [s |-> "err", v |-> << >>]
  ELSE IF a.s = "in" THEN [s |-> "more", v |-> a.v]
  ELSE IF L.mode \in {"str", "stresc"} THEN [s |-> "more", v |-> PTop(L.toks, 1, << >>, TRUE).v]
  ELSE IF L.mode \in {"char", "charesc", "tilde"} THEN [s |-> "open", v |-> PTop(L.toks, 1, << >>, TRUE).v]
  ELSE LET E == Step(L, NL)
           b == PTop(E.toks, 1, << >>, TRUE) IN
       IF E.bad \/ b.s = "err" THEN [s |-> "err", v |-> << >>]
       ELSE IF b.s = "dangling" THEN [s |-> "open", v |-> b.v]
       ELSE IF b.s = "in" THEN [s |-> "more", v |-> b.v]
       ELSE [s |-> "ok", v |-> b.v]
\* a value read by the implementation is the one the text denotes
RECURSIVE Same(_, _)
SameSeq(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Same(x[i], y[i])
Same(v, r) ==
  CASE v[1] = "dec" -> r[1] = "float" /\ Nearest(v[2], v[3], v[4], [c |-> r[2], s |-> r[3], m |-> r[4], e |-> r[5]])
    [] v[1] \in {"list", "arr"} -> r[1] = v[1] /\ SameSeq(v[2], r[2])
    [] v[1] = "dotted" -> r[1] = v[1] /\ SameSeq(v[2], r[2]) /\ Same(v[3], r[3])
    [] OTHER -> v = r
Read(t) == Answer(LexFrom(Lex0, t, 1))
=============================================================================

-------------------------------- MODULE Lcg ---------------------------------
(* The documented 48-bit linear congruential generator; a seed is three 16-bit limbs. *)
EXTENDS Bits
LOCAL INSTANCE SequencesExt
Factor == <<58989, 57068, 5>>                                     \* 0x5DEECE66D
Scramble(v) == LXor(SubSeq(v, 1, 3), Factor)                     \* v: a 64-bit argument
(* s * 0x5DEECE66D + 11 modulo 2^48, with 12-bit limbs so that products stay within TLC's integers *)
Split(s) == <<s[1] % 4096, (s[1] \div 4096) + (s[2] % 256) * 16, (s[2] \div 256) + (s[3] % 16) * 256, s[3] \div 16>>
Carry1(c) == <<c[1] % 4096, c[2] + (c[1] \div 4096), c[3], c[4]>>
Carry2(c) == <<c[1], c[2] % 4096, c[3] + (c[2] \div 4096), c[4]>>
Carry3(c) == <<c[1], c[2], c[3] % 4096, (c[4] + (c[3] \div 4096)) % 4096>>
Columns(p) == <<p[1] * 1645 + 11, p[1] * 3790 + p[2] * 1645, p[1] * 1502 + p[2] * 3790 + p[3] * 1645, p[2] * 1502 + p[3] * 3790 + p[4] * 1645>>
Join(p) == <<p[1] + (p[2] % 16) * 4096, (p[2] \div 16) + (p[3] % 256) * 256, (p[3] \div 256) + p[4] * 16>>
Step(s) == Ev1(Join, Ev1(Carry3, Ev1(Carry2, Ev1(Carry1, Ev1(Columns, Ev1(Split, s))))))
RECURSIVE Steps(_, _)
Steps(s, n) == IF n = 0 THEN s ELSE Steps(Step(s), n - 1)
Top0(s, n) == IF n = 32 THEN <<s[2], s[3]>> ELSE LET t == LShr(s, 48 - n) IN <<t[1], t[2]>>
Top(s, n) == Ev2(Top0, s, n)                                      \* the n most significant bits, two limbs
TopInt(s, n) == ToInt(Top(s, n))                                  \* n < 32
PowerOfTwo(b) == \E k \in 0..30 : b = P2[k]
Log2(b) == CHOOSE k \in 0..30 : b = P2[k]
(* what a draw below bound b yields from a seed just reached; -1: it is rejected and another is drawn *)
Below(s, b) == LET x == TopInt(s, 31) v == x % b IN
               IF PowerOfTwo(b) THEN (IF b = 1 THEN 0 ELSE x \div P2[31 - Log2(b)])
               ELSE IF x - v > 2147483647 - (b - 1) THEN -1 ELSE v
LongOf(hi, lo) == LAdd(<<0, 0, hi[1], hi[2]>>, Extend(lo, 4))
DoubleOf(hi, lo) == LAdd(LShl(ExtendU(hi, 4), 27), ExtendU(lo, 4))   \* times 2^-53
Chars == <<97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122,
           65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
(* the first accepted draw below b after s: <<value, seed>> *)
RECURSIVE Bounded0(_, _)
Bounded0(t, b) == LET v == Below(t, b) IN IF v >= 0 THEN <<v, t>> ELSE Ev2(Bounded0, Step(t), b)
Bounded(s, b) == Ev2(Bounded0, Step(s), b)
LongDraw(t, u) == <<LongOf(Top(t, 32), Top(u, 32)), u>>
DoubleDraw(t, u) == <<DoubleOf(Top(t, 26), Top(u, 27)), u>>
NextLong(s) == Ev2(LongDraw, Step(s), Step(Step(s)))
NextDouble(s) == Ev2(DoubleDraw, Step(s), Step(Step(s)))
StringStep(acc, k) == LET d == Bounded(acc[2], 62) IN <<Append(acc[1], Chars[d[1] + 1]), d[2]>>
NextString(s, n) == FoldLeft(StringStep, <<<<>>, s>>, [k \in 1..n |-> k])
ByteStep(acc, t) == <<Append(acc[1], t[2] \div 256), t>>
NextBytes(s, n) == FoldLeft(LAMBDA acc, k : Ev2(ByteStep, acc, Step(acc[2])), <<<<>>, s>>, [k \in 1..n |-> k])
(* the polar method draws pairs of doubles until 0 < x^2 + y^2 < 1, x = 2d - 1 *)
Square(d) == LET x == LAbs(LSub(d, <<0, 0, 0, 16>>)) IN LMul(ExtendU(x, 8), ExtendU(x, 8))       \* (d - 2^52)^2
InDisc(x, y) == LET q == LAdd(Square(x), Square(y)) IN q[8] = 0 /\ q[7] < 256 /\ q # LZero(8)
RECURSIVE Polar0(_)
Polar0(s) == LET x == NextDouble(s) y == NextDouble(x[2]) IN IF InDisc(x[1], y[1]) THEN y[2] ELSE Ev1(Polar0, y[2])
Polar(s) == Ev1(Polar0, s)                                        \* the seed after a Gaussian pair
=============================================================================

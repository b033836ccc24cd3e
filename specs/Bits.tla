-------------------------------- MODULE Bits --------------------------------
(* Machine words as sequences of 16-bit limbs, least significant first       *)
(* (TLC's integers are 32 bits wide): bit operations and modular arithmetic. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

P2 == [k \in 0..30 |-> 2^k]
(* TLC passes arguments unevaluated; these pass values, so that nested operators are not evaluated over and over *)
Ev1(Op(_), a) == FoldLeft(LAMBDA z, p : Op(p), 0, <<a>>)
Ev2(Op(_, _), a, b) == FoldLeft(LAMBDA z, p : Op(p[1], p[2]), 0, <<<<a, b>>>>)
Ev3(Op(_, _, _), a, b, c) == FoldLeft(LAMBDA z, p : Op(p[1], p[2], p[3]), 0, <<<<a, b, c>>>>)
W16 == 65536
BitOf(x, k) == (x \div P2[k]) % 2                       \* x >= 0
RECURSIVE BoolOp16(_, _, _, _)
BoolOp16(op, x, y, k) == IF k = 16 THEN 0
    ELSE LET a == x % 2 b == y % 2
             c == CASE op = "and" -> a * b [] op = "or" -> (IF a + b > 0 THEN 1 ELSE 0) [] op = "xor" -> (IF a = b THEN 0 ELSE 1)
         IN c + 2 * BoolOp16(op, x \div 2, y \div 2, k + 1)
LOp0(op, a, b) == [k \in 1..Len(a) |-> BoolOp16(op, a[k], b[k], 0)]
LOp(op, a, b) == Ev3(LOp0, op, a, b)
LAnd(a, b) == LOp("and", a, b)
LOr(a, b) == LOp("or", a, b)
LXor(a, b) == LOp("xor", a, b)
LNot(a) == [k \in 1..Len(a) |-> W16 - 1 - a[k]]
LZero(n) == [k \in 1..n |-> 0]
LSmall(x, n) == [k \in 1..n |-> IF k = 1 THEN x % W16 ELSE IF k = 2 THEN x \div W16 ELSE 0]   \* 0 <= x < 2^31

(* acc: limbs so far and the carry *)
AddLimb(acc, x) == LET t == x + acc[2] IN <<Append(acc[1], t % W16), t \div W16>>
LAdd0(a, b) == FoldLeft(AddLimb, <<<<>>, 0>>, [k \in 1..Len(a) |-> a[k] + b[k]])[1]
LAdd(a, b) == Ev2(LAdd0, a, b)
LSub0(a, b) == FoldLeft(AddLimb, <<<<>>, 1>>, [k \in 1..Len(a) |-> a[k] + (W16 - 1 - b[k])])[1]
LNeg(a) == LAdd(LNot(a), LSmall(1, Len(a)))
LSub(a, b) == Ev2(LSub0, a, b)
(* product of a 16-bit limb and a limb, as <<low, high>> without exceeding 31 bits *)
Mul16(x, y) == LET xl == x % 256 xh == x \div 256
                   lo == xl * y                       \* < 2^24
                   hi == xh * y                       \* < 2^24, weight 2^8
                   s == lo + (hi % 256) * 256         \* < 2^25
               IN <<s % W16, (hi \div 256) + (s \div W16)>>
MulLimb(acc, p) == LET t == p[1] + acc[2] IN <<Append(acc[1], t % W16), p[2] + (t \div W16)>>
MulRow(a, y) == FoldLeft(MulLimb, <<<<>>, 0>>, [k \in 1..Len(a) |-> Mul16(a[k], y)])[1]
ShiftLimbs(a, n) == [k \in 1..Len(a) |-> IF k <= n THEN 0 ELSE a[k - n]]
LMul0(a, b) == FoldLeft(LAMBDA acc, j : IF b[j] = 0 THEN acc ELSE LAdd(acc, Ev2(ShiftLimbs, MulRow(a, b[j]), j - 1)), LZero(Len(a)), [j \in 1..Len(b) |-> j])
LMul(a, b) == Ev2(LMul0, a, b)                           \* modulo 2^(16 Len)

LBit(a, i) == BitOf(a[i \div 16 + 1], i % 16)
FromBits(f, n) == [k \in 1..n |->                        \* f: bit index -> 0/1
    LET b(i) == f[16 * (k - 1) + i] IN
    b(0) + 2 * b(1) + 4 * b(2) + 8 * b(3) + 16 * b(4) + 32 * b(5) + 64 * b(6) + 128 * b(7) + 256 * b(8) + 512 * b(9) + 1024 * b(10)
    + 2048 * b(11) + 4096 * b(12) + 8192 * b(13) + 16384 * b(14) + 32768 * b(15)]
Width(a) == 16 * Len(a)
LShl0(a, s) == FromBits([i \in 0..(Width(a) - 1) |-> IF i >= s THEN LBit(a, i - s) ELSE 0], Len(a))
LShr0(a, s) == FromBits([i \in 0..(Width(a) - 1) |-> IF i + s < Width(a) THEN LBit(a, i + s) ELSE 0], Len(a))
LSar0(a, s) == FromBits([i \in 0..(Width(a) - 1) |-> IF i + s < Width(a) THEN LBit(a, i + s) ELSE LBit(a, Width(a) - 1)], Len(a))
LShl(a, s) == Ev2(LShl0, a, s)
LShr(a, s) == Ev2(LShr0, a, s)          \* unsigned
LSar(a, s) == Ev2(LSar0, a, s)
LNegative(a) == a[Len(a)] >= 32768
RECURSIVE LCmpU(_, _, _)
LCmpU(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE LCmpU(a, b, k - 1)
LCompareU(a, b) == Ev3(LCmpU, a, b, Len(a))
LCompare0(a, b) == IF LNegative(a) # LNegative(b) THEN (IF LNegative(a) THEN -1 ELSE 1) ELSE LCmpU(a, b, Len(a))
LCompare(a, b) == Ev2(LCompare0, a, b)
LPop0(a) == Cardinality({i \in 0..(Width(a) - 1) : LBit(a, i) = 1})
LTop0(a) == LET S == {i \in 0..(Width(a) - 1) : LBit(a, i) = 1} IN IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
LLow0(a) == LET S == {i \in 0..(Width(a) - 1) : LBit(a, i) = 1} IN IF S = {} THEN Width(a) ELSE CHOOSE x \in S : \A y \in S : y >= x
LPop(a) == Ev1(LPop0, a)
LTop(a) == Ev1(LTop0, a)
LLow(a) == Ev1(LLow0, a)
(* division by a small positive number (< 2^15), unsigned: quotient limbs and remainder *)
DivLimb(d, acc, x) == LET t == acc[2] * W16 + x IN <<<<t \div d>> \o acc[1], t % d>>
LDivSmall0(a, d) == FoldLeft(LAMBDA acc, x : DivLimb(d, acc, x), <<<<>>, 0>>, [k \in 1..Len(a) |-> a[Len(a) + 1 - k]])
LDivSmall(a, d) == Ev2(LDivSmall0, a, d)
(* a 32-bit pair as a TLC integer, when it fits (never -2^31) *)
ToInt(p) == IF p[2] >= 32768 THEN -((65535 - p[2]) * W16 + (65535 - p[1])) - 1 ELSE p[2] * W16 + p[1]
Low32(a) == <<a[1], a[2]>>
Extend(p, n) == [k \in 1..n |-> IF k <= Len(p) THEN p[k] ELSE IF LNegative(p) THEN W16 - 1 ELSE 0]     \* sign extension
ExtendU(p, n) == [k \in 1..n |-> IF k <= Len(p) THEN p[k] ELSE 0]
(* digits of an unsigned value in a radix, most significant first *)
DigitStep(acc, radix) == IF acc[3] THEN acc
                         ELSE LET q == LDivSmall(acc[1], radix) IN <<q[1], <<q[2]>> \o acc[2], q[1] = LZero(Len(acc[1]))>>
LDigits0(a, radix) == FoldLeft(LAMBDA acc, k : DigitStep(acc, radix), <<a, <<>>, FALSE>>, [k \in 1..Width(a) |-> k])[2]
LDigits(a, radix) == Ev2(LDigits0, a, radix)
(* unsigned division: quotient and remainder (b not zero); magnitudes of signed values *)
SubBit(b, q2, r2) == IF LCompareU(r2, b) >= 0 THEN <<LAdd(q2, LSmall(1, Len(b))), LSub(r2, b)>> ELSE <<q2, r2>>
DivBit(b, acc, x) == Ev3(SubBit, b, LAdd(acc[1], acc[1]), LAdd(LAdd(acc[2], acc[2]), LSmall(x, Len(b))))
LUDiv0(a, b) == LET n == Len(a) + 1 w == 16 * Len(a)
                    x == FoldLeft(LAMBDA acc, bit : DivBit(b, acc, bit), <<LZero(n), LZero(n)>>, [i \in 1..w |-> LBit(a, w - i)])
                IN <<SubSeq(x[1], 1, Len(a)), SubSeq(x[2], 1, Len(a))>>
LUDiv(a, b) == Ev2(LUDiv0, a, ExtendU(b, Len(a) + 1))
LAbs(a) == IF LNegative(a) THEN LNeg(a) ELSE a
(* signed division truncating towards zero; the minimum divided by -1 wraps *)
LDiv0(a, b) == LET q == LUDiv(LAbs(a), LAbs(b))[1] IN IF LNegative(a) # LNegative(b) THEN LNeg(q) ELSE q
LRem0(a, b) == LET r == LUDiv(LAbs(a), LAbs(b))[2] IN IF LNegative(a) THEN LNeg(r) ELSE r
LDiv(a, b) == Ev2(LDiv0, a, b)
LRem(a, b) == Ev2(LRem0, a, b)
=============================================================================

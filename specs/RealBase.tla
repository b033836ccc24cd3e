-------------------------------- MODULE RealBase -----------------------------
(* Floating-point values as used by Real (property C27) and RealMath (property C28): IEEE 754 bit patterns, sequences of *)
(* 16-bit limbs.  `kind` selects the format: 0 for float, 1 for double.  The library's integer form of a value ("bits",     *)
(* pinned by its tests) is the magnitude bits negated for negative values, with one pattern for zero and the greatest       *)
(* number for NaN: the numeric order, with NaN above everything.                                                            *)
EXTENDS Bits
LOCAL INSTANCE SequencesExt
VARIABLES objs, kind, res, exc
vars == <<objs, kind, res, exc>>
CONSTANTS Kinds
C(o, a) == [o |-> o, a |-> a]
Limbs(k) == IF k = 0 THEN 2 ELSE 4
N == Limbs(kind)
Init == kind \in Kinds /\ objs = <<LZero(Limbs(kind)), LZero(Limbs(kind))>> /\ res = <<>> /\ exc = ""
New(k) == objs' = <<LZero(Limbs(k)), LZero(Limbs(k))>> /\ kind' = k /\ res' = <<>> /\ exc' = ""
-----------------------------------------------------------------------------
(* fields *)
Neg(v) == LNegative(v)
Mag(v) == [v EXCEPT ![Len(v)] = @ % 32768]
ESize == IF kind = 0 THEN 128 ELSE 16                       \* weight of the exponent in the top limb
EMax == IF kind = 0 THEN 255 ELSE 2047
FracBits == IF kind = 0 THEN 23 ELSE 52
Bias == IF kind = 0 THEN 127 ELSE 1023
EField(v) == (v[Len(v)] % 32768) \div ESize
Frac(v) == [v EXCEPT ![Len(v)] = @ % ESize]
Inf(v) == EField(v) = EMax /\ Frac(v) = LZero(N)
NaN(v) == EField(v) = EMax /\ ~Inf(v)
Finite(v) == EField(v) < EMax
Zero(v) == Mag(v) = LZero(N)
Hidden == [k \in 1..N |-> IF k = N THEN ESize ELSE 0]
Mant(v) == IF EField(v) = 0 THEN Frac(v) ELSE LAdd(Frac(v), Hidden)
Expo(v) == (IF EField(v) = 0 THEN 1 ELSE EField(v)) - Bias - FracBits         \* the value is Mant * 2^Expo
Top == [k \in 1..N |-> IF k = N THEN 32767 ELSE 65535]
Key0(v) == IF NaN(v) THEN Top ELSE IF Neg(v) THEN LNeg(Mag(v)) ELSE v
Key(v) == Ev1(Key0, v)
Cmp(a, b) == LCompare(Key(a), Key(b))
Hash(v) == LET k == Key(v) IN IF kind = 0 THEN k ELSE LXor(k, LET s == k[4] IN <<k[3], k[4], IF s >= 32768 THEN 65535 ELSE 0, IF s >= 32768 THEN 65535 ELSE 0>>)
Canon(v) == IF Zero(v) THEN LZero(N) ELSE v                 \* one pattern for zero
OfKey(k) == IF LNegative(k) THEN LET m == LNeg(k) IN [m EXCEPT ![N] = @ + 32768] ELSE k
(* the pattern of a small integer (|n| < 2^23) *)
OfInt0(n) == IF n = 0 THEN LZero(N)
            ELSE LET a == IF n < 0 THEN -n ELSE n  t == LTop(LSmall(a, 2))
                     m == LShl(LSmall(a, N), FracBits - t)                              \* with the hidden bit
                     b == LAdd(LSub(m, Hidden), LShl(LSmall(t + Bias, N), FracBits))
                 IN IF n < 0 THEN [b EXCEPT ![N] = @ + 32768] ELSE b
OfInt(n) == Ev1(OfInt0, n)
-----------------------------------------------------------------------------
(* big natural numbers *)
Wide(v, n) == ExtendU(v, n)
Tens(k) == [j \in 1..((k + 3) \div 4) |-> IF 4 * j <= k THEN 10000 ELSE CASE k % 4 = 1 -> 10 [] k % 4 = 2 -> 100 [] OTHER -> 1000]
MulPow10(a, k) == FoldLeft(MulRow, a, Tens(k))
DivPow10(a, k) == FoldLeft(LAMBDA acc, d : LDivSmall(acc, d)[1], a, Tens(k))
Times20(a, s) == Ev2(ShiftLimbs, MulRow(a, P2[s % 16]), s \div 16)
Times2(a, s) == Ev2(Times20, a, s)
TimesPow10(a, k) == Ev2(MulPow10, a, k)
Pos(x) == IF x > 0 THEN x ELSE 0
(* floor of v * 10^j in n limbs, and how the rest compares with one half (-1, 0, 1; exactly none: -1) *)
Scaled0(v, j, n) ==
    LET num == Times2(TimesPow10(Wide(Mant(v), n), Pos(j)), Pos(Expo(v)))
        s == Pos(-Expo(v))
        Q(x) == DivPow10(LShr(x, s), Pos(-j))
        Over(q, x) == LET den == Times2(TimesPow10(LSmall(1, n), Pos(-j)), s) r == LSub(x, LMul(q, den)) IN LCompareU(Times2(r, 1), den)
    IN Ev1(LAMBDA x : Ev2(LAMBDA q, y : <<q, IF s = 0 /\ j >= 0 THEN -1 ELSE Over(q, y)>>, Q(x), x), num)
Scaled(v, j, n) == Ev3(Scaled0, v, j, n)
Round0(p) == IF p[2] > 0 \/ (p[2] = 0 /\ p[1][1] % 2 = 1) THEN LAdd(p[1], LSmall(1, Len(p[1]))) ELSE p[1]
Round(p) == Ev1(Round0, p)                                  \* to nearest, ties to even
(* text *)
Digits(a) == LET d == LDigits(a, 10) IN [k \in 1..Len(d) |-> 48 + d[k]]
Zeros(n) == [k \in 1..n |-> 48]
Sign(v) == IF Neg(v) THEN <<45>> ELSE <<>>
Special(v) == IF NaN(v) THEN <<110, 97, 110>> ELSE <<105, 110, 102>>
Insert(d, p) == SubSeq(d, 1, Len(d) - p) \o <<46>> \o SubSeq(d, Len(d) - p + 1, Len(d))
Fixed0(v) == LET d == IF Expo(v) < -125 THEN <<48>> ELSE Digits(Round(Scaled(v, 15, 9 + Pos(Expo(v)) \div 16)))
             IN Insert(Zeros(Pos(16 - Len(d))) \o d, 15)                                \* 15 decimals
Fixed(v) == Ev1(Fixed0, v)
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d
WithPoint(d) == IF d = <<>> THEN <<>> ELSE <<46>> \o d
Two(x) == <<48 + (x \div 10), 48 + (x % 10)>>
(* six significant digits, the shorter of the two notations *)
Layout(d, x) == IF x < -4 \/ x >= 6
                THEN <<d[1]>> \o WithPoint(Strip(Tail(d))) \o <<101>> \o (IF x < 0 THEN <<45>> ELSE <<43>>) \o Two(IF x < 0 THEN -x ELSE x)
                ELSE IF x >= 0 THEN SubSeq(d, 1, x + 1) \o WithPoint(Strip(SubSeq(d, x + 2, 6)))
                ELSE <<48, 46>> \o Zeros(-x - 1) \o Strip(d)
Six(v, x) == LET r == Round(Scaled(v, 5 - x, 14)) IN
             IF LCompareU(r, LSmall(1000000, 14)) >= 0 THEN Layout(<<49, 48, 48, 48, 48, 48>>, x + 1) ELSE Layout(Digits(r), x)
General0(v) == IF Zero(v) THEN <<48>>
              ELSE LET x0 == ((LTop(Mant(v)) + Expo(v)) * 30103) \div 100000
                       more == LCompareU(Scaled(v, 5 - x0, 14)[1], LSmall(1000000, 14)) >= 0
                   IN Ev2(Six, v, IF more THEN x0 + 1 ELSE x0)
General(v) == Ev1(General0, v)
Text0(v) == IF Finite(v) THEN Sign(v) \o (IF kind = 0 THEN General(v) ELSE Fixed(v)) ELSE (IF NaN(v) THEN <<>> ELSE Sign(v)) \o Special(v)
Text(v) == Ev1(Text0, v)
-----------------------------------------------------------------------------
(* numerals: sign, digits with an optional point, optional exponent *)
IsDigit(c) == c \in 48..57
FirstAt(t, S) == LET P == {k \in 1..Len(t) : t[k] \in S} IN IF P = {} THEN Len(t) + 1 ELSE CHOOSE x \in P : \A y \in P : x <= y
AllDigits(t) == \A k \in 1..Len(t) : IsDigit(t[k])
Rest(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
Num0(t) == LET b == Rest(t)
               ep == FirstAt(b, {101, 69}) m == SubSeq(b, 1, ep - 1) x == SubSeq(b, ep + 1, Len(b))
               dp == FirstAt(m, {46}) i == SubSeq(m, 1, dp - 1) f == SubSeq(m, dp + 1, Len(m))
           IN [ok |-> AllDigits(i) /\ AllDigits(f) /\ Len(i) + Len(f) > 0 /\ (ep <= Len(b) => Rest(x) # <<>> /\ AllDigits(Rest(x))),
               minus |-> t # <<>> /\ t[1] = 45, digits |-> i \o f, point |-> Len(f), exp |-> Rest(x), expminus |-> x # <<>> /\ x[1] = 45]
Numeral(t) == Ev1(Num0, t)
IntOf(d) == FoldLeft(LAMBDA acc, c : IF acc > 9999 THEN acc ELSE acc * 10 + (c - 48), 0, d)
BigOf(d, n) == FoldLeft(LAMBDA acc, c : LAdd(MulRow(acc, 10), LSmall(c - 48, n)), LZero(n), d)
Ten(n) == (IF n.expminus THEN -IntOf(n.exp) ELSE IntOf(n.exp)) - n.point
(* v is the value nearest to d * 10^k * 2^b / den, ties to even *)
Nearest1(q, v) ==
    LET Big == Len(q.d)
        m == IF Inf(v) THEN Times2(Wide(Hidden, Big), 1) ELSE Wide(Mant(v), Big)
        e == (IF Inf(v) THEN EMax - 1 - Bias - FracBits ELSE Expo(v)) - 2
        m4 == Times2(m, 2)
        pow == ~Inf(v) /\ EField(v) > 1 /\ Frac(v) = LZero(N)
        below == LSub(m4, LSmall(IF pow THEN 1 ELSE 2, Big))
        above == LAdd(m4, LSmall(2, Big))
        a == Times2(TimesPow10(q.d, Pos(q.k)), Pos(q.b) + Pos(-e))
        By(c) == Times2(TimesPow10(IF q.den = <<1>> THEN c ELSE LMul(c, Wide(q.den, Big)), Pos(-q.k)), Pos(-q.b) + Pos(e))
        even == m[1] % 2 = 0
        lo == IF m = LZero(Big) THEN 1 ELSE LCompareU(a, By(below))
        hi == IF Inf(v) THEN -1 ELSE LCompareU(a, By(above))
    IN (lo > 0 \/ (lo = 0 /\ even)) /\ (hi < 0 \/ (hi = 0 /\ even))
NearestTo(q, v) == Ev2(Nearest1, q, v)
Nearest(dd, kk, v) == NearestTo([d |-> dd, k |-> kk, b |-> 0, den |-> <<1>>], v)
Abs(x) == IF x < 0 THEN -x ELSE x
Room(n, v) == 8 + (4 * Len(n.digits) + 4 * Abs(Ten(n)) + Abs(IF Inf(v) THEN EMax ELSE Expo(v))) \div 16
Denotes(t, v) == LET n == Numeral(t) IN
                 /\ ~NaN(v) /\ Neg(v) = n.minus
                 /\ IF \A k \in 1..Len(n.digits) : (n.digits[k] = 48 \/ Ten(n) + Len(n.digits) < -330) THEN Zero(v)
                    ELSE IF Ten(n) > 310 THEN Inf(v) ELSE Nearest(BigOf(n.digits, Room(n, v)), Ten(n), v)
(* r is x + y, x - y, x * y or x / y rounded to nearest *)
Flip(v) == [v EXCEPT ![N] = (@ + 32768) % 65536]
SumOf(x, y, r) == LET e == IF Expo(x) < Expo(y) THEN Expo(x) ELSE Expo(y)
                      big == IF Expo(x) < Expo(y) THEN Expo(y) - e ELSE Expo(x) - e
                      w(v) == LET t == Times2(Wide(Mant(v), 12 + big \div 16), Expo(v) - e) IN IF Neg(v) THEN LNeg(t) ELSE t
                      s == LAdd(w(x), w(y))
                      Is(z) == IF z = LZero(Len(z)) THEN Zero(r) /\ Neg(r) = (Neg(x) /\ Neg(y))
                               ELSE Neg(r) = LNegative(z) /\ NearestTo([d |-> ExtendU(LAbs(z), Len(z) + 12 + (Abs(e) + Abs(Expo(r))) \div 16), k |-> 0, b |-> e, den |-> <<1>>], r)
                  IN Ev1(Is, s)
Sum(x, y, r) == IF Inf(x) THEN (IF Inf(y) /\ Neg(x) # Neg(y) THEN NaN(r) ELSE r = x) ELSE IF Inf(y) THEN r = y ELSE SumOf(x, y, r)
Product(x, y, r) == IF (Inf(x) /\ Zero(y)) \/ (Zero(x) /\ Inf(y)) THEN NaN(r)
                    ELSE /\ ~NaN(r) /\ Neg(r) = (Neg(x) # Neg(y))
                         /\ IF Inf(x) \/ Inf(y) THEN Inf(r) ELSE IF Zero(x) \/ Zero(y) THEN Zero(r)
                            ELSE LET b == Expo(x) + Expo(y)
                                     room == 24 + (Abs(b) + Abs(Expo(r))) \div 16
                                 IN NearestTo([d |-> ExtendU(LMul(Wide(Mant(x), 8), Wide(Mant(y), 8)), room), k |-> 0, b |-> b, den |-> <<1>>], r)
Quotient(x, y, r) == IF (Inf(x) /\ Inf(y)) \/ (Zero(x) /\ Zero(y)) THEN NaN(r)
                     ELSE /\ ~NaN(r) /\ Neg(r) = (Neg(x) # Neg(y))
                          /\ IF Inf(x) \/ Zero(y) THEN Inf(r) ELSE IF Zero(x) \/ Inf(y) THEN Zero(r)
                             ELSE LET b == Expo(x) - Expo(y)
                                  IN NearestTo([d |-> Wide(Mant(x), 24 + (Abs(b) + Abs(Expo(r))) \div 16), k |-> 0, b |-> b, den |-> Mant(y)], r)
Calc(f, x, y, r) == IF NaN(x) \/ NaN(y) THEN NaN(r)
                    ELSE CASE f = 0 -> Sum(x, y, r) [] f = 1 -> Sum(x, Flip(y), r) [] f = 2 -> Product(x, y, r) [] f = 3 -> Quotient(x, y, r)
-----------------------------------------------------------------------------
(* special values and their neighbours *)
One == OfInt(1)
Raw(h) == [k \in 1..N |-> IF k = N THEN h ELSE 0]
Plus(v, d) == LAdd(v, LSmall(d, N))
FloatValues == {<<0, 0>>, <<1, 0>>, <<65535, 127>>, <<0, 128>>, <<0, 16256>>, <<1, 16256>>, <<65535, 16255>>, <<52429, 15820>>, <<0, 16752>>, <<0, 20224>>, <<0, 24320>>, <<65535, 32639>>, <<0, 32640>>}
DoubleValues == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<65535, 65535, 65535, 15>>, <<0, 0, 0, 16>>, <<0, 0, 0, 16368>>, <<1, 0, 0, 16368>>, <<65535, 65535, 65535, 16367>>, <<39322, 39321, 39321, 16313>>,
                 <<0, 0, 0, 16430>>, <<0, 0, 0, 16864>>, <<0, 0, 0, 17376>>, <<65535, 65535, 65535, 32751>>, <<0, 0, 0, 32752>>}
Minus(v) == [v EXCEPT ![Len(v)] = @ + 32768]
NaNOf == IF kind = 0 THEN <<0, 32704>> ELSE <<0, 0, 0, 32760>>
Vals == LET s == IF kind = 0 THEN FloatValues ELSE DoubleValues IN s \cup {Minus(v) : v \in s} \cup {NaNOf}
=============================================================================

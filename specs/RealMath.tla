------------------------------ MODULE RealMath -------------------------------
(* Property C28: the functions of Math that IEEE 754 defines exactly - rounding to integers, neighbours, ulp, exponent,  *)
(* scaling, sign, square root and remainder - on every float and double.  A NaN result is written <<>>.                   *)
EXTENDS RealBase
LOCAL INSTANCE SequencesExt
Shown(v) == IF NaN(v) THEN <<>> ELSE v
Ret(v) == res' = <<IF v = <<>> THEN <<>> ELSE Shown(v)>> /\ exc' = "" /\ UNCHANGED <<objs, kind>>
RetInt(n) == res' = <<n>> /\ exc' = "" /\ UNCHANGED <<objs, kind>>
(* a result that only Obs can judge *)
Unknown == TRUE
Nothing == res' = <<>> /\ exc' = ""                         \* in its place when scripts are generated
-----------------------------------------------------------------------------
(* sign bit and magnitude of an integer m < 2^(FracBits + 1), as a value *)
OfNat0(m, s) == LET t == LTop(m)
                    b == IF t < 0 THEN LZero(N) ELSE LAdd(LSub(LShl(m, FracBits - t), Hidden), LShl(LSmall(t + Bias, N), FracBits))
                IN IF s THEN Minus(b) ELSE b
OfNat(m, s) == Ev2(OfNat0, m, s)
(* a finite v with Expo(v) < 0: whole part of the magnitude, whether v is whole, the rest compared with one half *)
Parts0(v) == LET s == -Expo(v)
                 small == s > 16 * N - 2
                 q == IF small THEN LZero(N) ELSE LShr(Mant(v), s)
                 back == IF small THEN LZero(N) ELSE LShl(q, s)
             IN [q |-> q, whole |-> back = Mant(v), half |-> IF small THEN -1 ELSE LCompareU(LSub(Mant(v), back), LShl(LSmall(1, N), s - 1))]
Parts(v) == Ev1(Parts0, v)
Odd(q) == q[1] % 2 = 1
Integral0(v, f) == IF ~Finite(v) \/ Zero(v) \/ Expo(v) >= 0 THEN v
                   ELSE LET p == Parts(v)
                            up == CASE p.whole -> FALSE [] f = "floor" -> Neg(v) [] f = "ceil" -> ~Neg(v) [] OTHER -> p.half > 0 \/ (p.half = 0 /\ Odd(p.q))
                        IN OfNat(IF up THEN LAdd(p.q, LSmall(1, N)) ELSE p.q, Neg(v))
Integral(v, f) == Ev2(Integral0, v, f)
(* the integers closest to v, as two's complement, within the range of the type *)
Least == Raw(32768)
Greatest == Top
Signed(m, s) == IF s THEN LNeg(m) ELSE m
Closest0(v) == IF NaN(v) THEN {LZero(N)}
               ELSE IF Inf(v) \/ (Expo(v) >= 0 /\ LTop(Mant(v)) + Expo(v) > 16 * N - 2) THEN {IF Neg(v) THEN Least ELSE Greatest}
               ELSE IF Expo(v) >= 0 THEN {Signed(LShl(Mant(v), Expo(v)), Neg(v))}
               ELSE LET p == Parts(v) up == LAdd(p.q, LSmall(1, N))
                    IN (IF p.half <= 0 THEN {Signed(p.q, Neg(v))} ELSE {}) \cup (IF p.half >= 0 /\ ~p.whole THEN {Signed(up, Neg(v))} ELSE {})
Closest(v) == Ev1(Closest0, v)
NextUp0(v) == IF NaN(v) \/ (Inf(v) /\ ~Neg(v)) THEN v ELSE IF Zero(v) THEN LSmall(1, N) ELSE IF Neg(v) THEN LSub(v, LSmall(1, N)) ELSE LAdd(v, LSmall(1, N))
NextUp(v) == Ev1(NextUp0, v)
NextDown(v) == Flip(NextUp(Flip(v)))
NextAfter(v, d) == IF NaN(v) \/ NaN(d) THEN <<>> ELSE LET c == Cmp(v, d) IN IF c = 0 THEN d ELSE IF c < 0 THEN NextUp(v) ELSE NextDown(v)
Bit(k) == [j \in 1..N |-> IF j = k \div 16 + 1 THEN P2[k % 16] ELSE 0]
Ulp(v) == IF ~Finite(v) THEN Mag(v) ELSE LET e == EField(v) IN
          IF e > FracBits THEN Raw((e - FracBits) * ESize) ELSE Bit(IF e = 0 THEN 0 ELSE e - 1)
Exponent(v) == IF EField(v) = 0 THEN -Bias ELSE EField(v) - Bias
CopySign(m, s) == IF Neg(m) = Neg(s) THEN m ELSE Flip(m)
Signum(v) == IF NaN(v) \/ Zero(v) THEN v ELSE CopySign(One, v)
-----------------------------------------------------------------------------
(* judged results *)
ScalbOk(v, n, r) == IF NaN(v) THEN r = <<>> ELSE IF Inf(v) \/ Zero(v) THEN r = v
                    ELSE /\ r # <<>> /\ Neg(r) = Neg(v)
                         /\ LET b == Expo(v) + n IN NearestTo([d |-> Wide(Mant(v), 16 + (Abs(b) + Abs(Expo(r))) \div 16), k |-> 0, b |-> b, den |-> <<1>>], r)
Square(x) == LMul(x, x)
SqrtNear(v, r) ==
    LET e == Expo(r) - 2
        sh == Expo(v) - 2 * e
        n == 12 + Abs(sh) \div 16
        m4 == Times2(Wide(Mant(r), n), 2)
        pow == EField(r) > 1 /\ Frac(r) = LZero(N)
        x == Times2(Wide(Mant(v), n), Pos(sh))
        At(c) == Ev1(LAMBDA y : LCompareU(x, Times2(Square(y), Pos(-sh))), c)
    IN At(LSub(m4, LSmall(IF pow THEN 1 ELSE 2, n))) > 0 /\ At(LAdd(m4, LSmall(2, n))) < 0          \* never half-way
SqrtOk(v, r) == IF NaN(v) \/ (Neg(v) /\ ~Zero(v)) THEN r = <<>> ELSE IF Inf(v) \/ Zero(v) THEN r = v
                ELSE r # <<>> /\ Finite(r) /\ ~Neg(r) /\ ~Zero(r) /\ SqrtNear(v, r)
(* d * 2^e is the magnitude of r *)
Exactly(d, e, r) == LET f == Expo(r) - e  n == Len(d) + N + Abs(f) \div 16 + 1
                    IN Finite(r) /\ Times2(ExtendU(d, n), Pos(-f)) = Times2(Wide(Mant(r), n), Pos(f))
(* x mod m, where x is a * 2^k and a < m *)
ModPow(a, k, m) == FoldLeft(LAMBDA acc, j : Ev2(LAMBDA t, mm : IF LCompareU(t, mm) >= 0 THEN LSub(t, mm) ELSE t, LAdd(acc, acc), m), a, [j \in 1..k |-> j])
RemainderOk(x, y, r) ==
    IF ~Finite(x) \/ ~Finite(y) \/ Zero(y) THEN r = <<>>                \* an infinite divisor gives NaN here, unlike in IEEE 754: the tests pin it
    ELSE IF Zero(x) \/ LTop(Mant(x)) + Expo(x) + 1 < LTop(Mant(y)) + Expo(y) THEN r = x                   \* |x| < |y| / 2
    ELSE LET k == Expo(x) - Expo(y)
             n == 6 + Pos(-k) \div 16
             m == Times2(Wide(Mant(y), n), Pos(-k))                    \* |y| in units of 2^min(Expo)
             t == ModPow(LUDiv(Wide(Mant(x), n), Times2(m, 1))[2], Pos(k), Times2(m, 1))       \* |x| mod 2|y|
             odd == LCompareU(t, m) >= 0
             rem == IF odd THEN LSub(t, m) ELSE t
             c == LCompareU(Times2(rem, 1), m)
             over == c > 0 \/ (c = 0 /\ odd)
             d == IF over THEN LSub(m, rem) ELSE rem
             e == IF k < 0 THEN Expo(x) ELSE Expo(y)
         IN /\ r # <<>>
            /\ IF d = LZero(n) THEN Zero(r) /\ Neg(r) = Neg(x)
               ELSE Neg(r) = (Neg(x) # over) /\ Exactly(d, e, r)
Judged == {"scalb", "sqrt", "rem"}
Judge(o, a, r) == CASE o = "scalb" -> ScalbOk(a[1], a[2][1], r) [] o = "sqrt" -> SqrtOk(a[1], r) [] o = "rem" -> RemainderOk(a[1], a[2], r)
-----------------------------------------------------------------------------
Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o \in {"floor", "ceil", "rint"} -> Ret(Integral(a[1], o))
    [] o = "round" -> \E r \in Closest(a[1]) : RetInt(r)
    [] o = "nextUp" -> Ret(NextUp(a[1]))
    [] o = "nextDown" -> Ret(NextDown(a[1])) \/ (kind = 0 /\ Zero(a[1]) /\ Ret(Minus(Hidden)))             \* the tests pin nextDown(0.0f) = -Float::MIN_VALUE, which they pin as the least normal value
    [] o = "nextAfter" -> Ret(NextAfter(a[1], a[2]))
    [] o = "ulp" -> Ret(Ulp(a[1]))
    [] o = "exponent" -> RetInt(Exponent(a[1]))
    [] o = "copySign" -> Ret(CopySign(a[1], a[2]))
    [] o = "signum" -> Ret(Signum(a[1]))
    [] o = "abs" -> Ret(Mag(a[1])) \/ (Zero(a[1]) /\ Ret(a[1]))                         \* the sign of zero is not promised
    [] o = "max" -> Ret(IF ~NaN(a[1]) /\ ~NaN(a[2]) /\ Cmp(a[1], a[2]) > 0 THEN a[1] ELSE a[2])
    [] o = "min" -> Ret(IF ~NaN(a[1]) /\ ~NaN(a[2]) /\ Cmp(a[1], a[2]) < 0 THEN a[1] ELSE a[2])
    [] o = "limits" -> kind = 1 /\ res' = <<LSmall(1, N), Hidden, LSub(Raw(EMax * ESize), LSmall(1, N)), EMax - 1 - Bias, 1 - Bias>> /\ exc' = "" /\ UNCHANGED <<objs, kind>>
    [] o \in Judged -> UNCHANGED <<objs, kind>> /\ Unknown
Obs(e) == /\ e.o \in Judged => Len(e.r) = 1 /\ Judge(e.o, e.a, e.r[1]) /\ res' = e.r /\ exc' = ""
          /\ exc' = e.x /\ res' = e.r /\ e.s = <<>>
-----------------------------------------------------------------------------
Unary == {"round", "nextUp", "nextDown", "ulp", "exponent", "signum", "abs"} \cup (IF kind = 1 THEN {"floor", "ceil", "rint", "sqrt"} ELSE {})
Binary == {"nextAfter", "copySign", "max", "min"} \cup (IF kind = 1 THEN {"rem"} ELSE {})
Halves == {LSub(OfInt(n), Raw(ESize)) : n \in {1, 3, 5, -1, -3, 7}}      \* n / 2
Extra == {OfInt(n) : n \in {1, 2, 3, 4, -3, 255, 8388607}} \cup Halves
Points == Vals \cup Extra
Calls == {C(o, <<v>>) : o \in Unary, v \in Points} \cup {C(o, <<v, w>>) : o \in Binary, v \in Points, w \in Points}
         \cup {C("scalb", <<v, <<n>>>>) : v \in Points, n \in {0, 1, -1, 3, 24, -24, 130, -130, 149, 1100, -1100}} \cup (IF kind = 1 THEN {C("limits", <<>>)} ELSE {})
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TRUE
(* theorems of the model *)
TypeOK == \A v \in Points : Len(v) = N
Neighbours == \A v \in Points : Finite(v) /\ ~Zero(v) => /\ Cmp(NextDown(v), v) < 0 /\ Cmp(v, NextUp(v)) < 0
                                                        /\ (Finite(NextUp(v)) => Cmp(NextDown(NextUp(v)), v) = 0)
UlpIsGap == \A v \in Points : Finite(v) /\ Finite(NextUp(Mag(v))) => Calc(1, NextUp(Mag(v)), Mag(v), Ulp(v))
Rounding == \A v \in Points : Finite(v) => /\ Cmp(Integral(v, "floor"), v) <= 0 /\ Cmp(v, Integral(v, "ceil")) <= 0
                                          /\ Integral(v, "rint") \in {Integral(v, "floor"), Integral(v, "ceil")}
                                          /\ \A f \in {"floor", "ceil", "rint"} : Integral(Integral(v, f), f) = Integral(v, f) /\ Neg(Integral(v, f)) = Neg(v)
                                          /\ Calc(1, v, Integral(v, "floor"), LZero(N)) = (Cmp(v, Integral(v, "floor")) = 0)
SquareRoots == \A n \in {1, 2, 3, 4, 255} : /\ kind = 1 => SqrtOk(OfInt(n * n), OfInt(n)) /\ ~SqrtOk(OfInt(n * n), NextUp(OfInt(n)))
Remainders == kind = 1 => \A x \in {1, 2, 3, 4, -3, 255} : \A y \in {1, 2, 4, 8} :
              LET m == (x + 2048) % y  r == IF 2 * m > y \/ (2 * m = y /\ ((x + 2048 - m) \div y) % 2 = 1) THEN m - y ELSE m
              IN RemainderOk(OfInt(x), OfInt(y), IF r = 0 /\ x < 0 THEN Minus(OfInt(0)) ELSE OfInt(r))
MCView == <<objs, kind>>
=============================================================================

-------------------------------- MODULE Num ---------------------------------
(* Properties C19 (conversion to and from text) and C20 (bit operations, order) of Integer (kind 0),   *)
(* Long (1), Short (2) and Bytes (3).  Values are two's complement bit patterns: sequences of 16-bit   *)
(* limbs (Bytes: one limb below 256); `objs` holds the values of two wrapper objects of the kind.      *)
EXTENDS Bits
LOCAL INSTANCE SequencesExt
VARIABLES objs, kind, res, exc
vars == <<objs, kind, res, exc>>
CONSTANTS Part, Kinds
C(o, a) == [o |-> o, a |-> a]
Limbs(k) == CASE k = 0 -> 2 [] k = 1 -> 4 [] OTHER -> 1
N == Limbs(kind)
Zero == LZero(N)
Init == kind \in Kinds /\ objs = <<LZero(Limbs(kind)), LZero(Limbs(kind))>> /\ res = <<>> /\ exc = ""
New(k) == objs' = <<LZero(Limbs(k)), LZero(Limbs(k))>> /\ kind' = k /\ res' = <<>> /\ exc' = ""
Byte == kind = 3
Neg(v) == ~Byte /\ LNegative(v)
Fit(v) == IF Byte THEN <<v[1] % 256>> ELSE v                       \* the value a computation leaves in the type
-----------------------------------------------------------------------------
(* text of values *)
DigitChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Numeral0(v, radix) == LET d == LDigits(v, radix) IN [k \in 1..Len(d) |-> DigitChar(d[k])]          \* unsigned
Numeral(v, radix) == Ev2(Numeral0, v, radix)
Text0(v, radix) == IF Neg(v) THEN <<45>> \o Numeral(LNeg(v), radix) ELSE Numeral(v, radix)
Text(v, radix) == Ev2(Text0, v, radix)
(* values of texts *)
Digit(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..122 -> c - 87 [] c \in 65..90 -> c - 55 [] OTHER -> 99
Digits(t, radix) == t # <<>> /\ \A k \in 1..Len(t) : Digit(t[k]) < radix
Signed(t) == t # <<>> /\ t[1] \in {43, 45}
Rest(t) == IF Signed(t) THEN Tail(t) ELSE t
Minus(t) == t # <<>> /\ t[1] = 45
Times(acc, radix, c) == IF acc[5] > 0 THEN acc ELSE LAdd(LMul(acc, LSmall(radix, 5)), LSmall(Digit(c), 5))   \* five limbs, saturating above 2^64
Magnitude0(t, radix) == FoldLeft(LAMBDA acc, c : Times(acc, radix, c), LZero(5), t)
Magnitude(t, radix) == Ev2(Magnitude0, t, radix)
Half == CASE kind = 0 -> <<0, 32768, 0, 0, 0>> [] kind = 1 -> <<0, 0, 0, 32768, 0>> [] kind = 2 -> <<32768, 0, 0, 0, 0>> [] OTHER -> <<256, 0, 0, 0, 0>>
InRange(m, minus) == LET c == LCompareU(m, Half) IN c < 0 \/ (c = 0 /\ minus /\ ~Byte)
Illegal == [ok |-> FALSE, v |-> <<>>]
Value(m, minus) == LET low == SubSeq(m, 1, N) IN [ok |-> TRUE, v |-> IF minus THEN LNeg(low) ELSE low]
Parse0(t, radix) == IF ~Digits(Rest(t), radix) THEN Illegal
                   ELSE LET m == Magnitude(Rest(t), radix) IN
                        IF ~InRange(m, Minus(t)) \/ (Byte /\ Minus(t) /\ m # LZero(5)) THEN Illegal ELSE Value(m, Minus(t) /\ ~Byte)
Parse(t, radix) == Ev2(Parse0, t, radix)
Prefix(t) == IF Len(t) >= 2 /\ t[1] = 48 /\ t[2] \in {120, 88} THEN <<2, 16>>
             ELSE IF t # <<>> /\ t[1] = 35 THEN <<1, 16>>
             ELSE IF Len(t) >= 2 /\ t[1] = 48 THEN <<1, 8>> ELSE <<0, 10>>
Decode0(t) == LET p == Prefix(Rest(t)) body == SubSeq(Rest(t), p[1] + 1, Len(Rest(t)))
             IN IF Signed(body) THEN Illegal ELSE Parse((IF Minus(t) THEN <<45>> ELSE <<>>) \o body, p[2])
Decode(t) == Ev1(Decode0, t)
ParseU0(t, radix) == IF Minus(t) \/ ~Digits(Rest(t), radix) THEN Illegal
                    ELSE LET m == Magnitude(Rest(t), radix) IN IF m[3] + m[4] + m[5] > 0 THEN Illegal ELSE [ok |-> TRUE, v |-> <<m[1], m[2]>>]
ParseU(t, radix) == Ev2(ParseU0, t, radix)
-----------------------------------------------------------------------------
Val(r) == res' = r /\ exc' = "" /\ UNCHANGED <<objs, kind>>
Ret(r) == res' = <<r>> /\ exc' = "" /\ UNCHANGED <<objs, kind>>
Fail(x) == res' = <<>> /\ exc' = x /\ UNCHANGED <<objs, kind>>
Sub(i, v) == objs' = [objs EXCEPT ![i] = v] /\ UNCHANGED kind /\ res' = <<>> /\ exc' = ""
(* Long reports text that is not a numeral as -1, which the repository's tests pin; the others raise NumberFormatException *)
Got(p) == IF p.ok THEN Ret(p.v) ELSE IF kind = 1 THEN Ret(LNot(Zero)) ELSE Fail("number")
GotSub(i, p) == IF p.ok THEN Sub(i, p.v) ELSE IF kind = 1 THEN Sub(i, LNot(Zero)) ELSE Fail("number")
Radices == 2..32
Arith0(f, a, b) == Fit(CASE f = 0 -> LAdd(a, b) [] f = 1 -> LSub(a, b) [] f = 2 -> LMul(a, b)
                        [] f = 3 -> IF Byte THEN LUDiv(a, b)[1] ELSE LDiv(a, b)
                        [] f = 4 -> IF Byte THEN LUDiv(a, b)[2] ELSE LRem(a, b))
Arith(f, a, b) == Ev3(Arith0, f, a, b)
ByZero(f, b) == f >= 3 /\ b = Zero
Cmp(a, b) == IF Byte THEN LCompareU(a, b) ELSE LCompare(a, b)
B(x) == IF x THEN 1 ELSE 0
Wide(v, n) == IF Byte THEN ExtendU(v, n) ELSE Extend(v, n)
Resize(v, n) == IF n <= Len(v) THEN SubSeq(v, 1, n) ELSE Wide(v, n)
Rev0(v) == LET w == Width(v) IN FromBits([i \in 0..(w - 1) |-> LBit(v, w - 1 - i)], Len(v))
Rev(v) == Ev1(Rev0, v)
RevBytes0(v) == LET w == Width(v) IN FromBits([i \in 0..(w - 1) |-> LBit(v, w - 8 - 8 * (i \div 8) + (i % 8))], Len(v))
RevBytes(v) == Ev1(RevBytes0, v)
RotL0(v, d) == LET w == Width(v) IN FromBits([i \in 0..(w - 1) |-> LBit(v, (i + w - d) % w)], Len(v))
RotL(v, d) == Ev2(RotL0, v, d)
OneBit0(v, i) == FromBits([k \in 0..(Width(v) - 1) |-> IF k = i THEN 1 ELSE 0], Len(v))
OneBit(v, i) == Ev2(OneBit0, v, i)
Bits90(v) == LET w == Width(v) IN
    <<LPop(v), IF v = Zero THEN v ELSE OneBit(v, LTop(v)), IF v = Zero THEN v ELSE OneBit(v, LLow(v)), w - 1 - LTop(v), LLow(v),
      Rev(v), RevBytes(v), IF v = Zero THEN 0 ELSE IF LNegative(v) THEN -1 ELSE 1,
      IF kind = 0 THEN v ELSE LXor(SubSeq(v, 1, 2), SubSeq(v, 3, 4))>>                            \* hash code
Bits9(v) == Ev1(Bits90, v)
(* the IEEE 754 bit pattern (f fraction bits, n limbs) nearest to an integer, ties to even *)
Cut0(m, s) == LET q == LShr(m, s) c == LCompareU(LSub(m, LShl(q, s)), OneBit(LZero(5), s - 1))
              IN IF c > 0 \/ (c = 0 /\ q[1] % 2 = 1) THEN LAdd(q, LSmall(1, 5)) ELSE q
Ieee1(m, t, f) == IF t <= f THEN LShl(m, f - t) ELSE Ev2(Cut0, m, t - f)                                         \* with the hidden bit
Ieee2(q, t, fb) == LAdd(LSub(q, OneBit(LZero(5), fb[1])), LShl(LSmall(t + fb[2], 5), fb[1]))
Ieee0(v, fb, n) == LET neg == Neg(v) m == ExtendU(IF neg THEN LNeg(v) ELSE v, 5) t == LTop(m)
                       p == SubSeq(Ev3(Ieee2, Ev3(Ieee1, m, t, fb[1]), t, fb), 1, n)
                   IN IF t < 0 THEN LZero(n) ELSE IF neg THEN [p EXCEPT ![n] = @ + 32768] ELSE p
Ieee(v, f, bias, n) == Ev3(Ieee0, v, <<f, bias>>, n)
Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o = "make" -> Sub(a[1], a[2])
    [] o = "makeText" -> GotSub(a[1], IF kind = 1 THEN Decode(a[2]) ELSE Parse(a[2], 10))
    [] o \in {"copy", "assign"} -> Sub(a[1], objs[a[2]])
    [] o = "cop" -> IF ByZero(a[1], objs[a[3]]) THEN Fail("arith") ELSE Sub(a[2], Arith(a[1], objs[a[2]], objs[a[3]]))
    [] o = "bop" -> LET x == objs[a[2]] y == objs[a[3]] IN
                    IF ByZero(a[1], y) THEN Fail("arith") ELSE LET v == Arith(a[1], x, y) IN Val(<<v, Text(v, 10)>>)
    [] o = "as" -> LET v == objs[a[1]] IN Val(<<Resize(v, 1), Resize(v, 2), Resize(v, 4), Ieee(v, 23, 127, 2), Ieee(v, 52, 1023, 4), IF Byte THEN v[1] ELSE Text(v, 10)[1]>>)
    [] o = "toString" -> Ret(Text(a[1], 10))
    [] o = "toBase" -> Ret(Numeral(a[1], a[2]))
    [] o \in {"toStringR", "toUnsigned"} ->
         LET t == IF o = "toUnsigned" THEN Numeral(a[1], IF a[2] \in Radices THEN a[2] ELSE 10) ELSE Text(a[1], IF a[2] \in Radices THEN a[2] ELSE 10)
         IN Ret(t) \/ (a[2] \in Radices \ {2, 8, 10, 16} /\ Fail("other"))    \* other radices need not be supported
    [] o = "parse" -> Got(Parse(a[1], 10))
    [] o = "parseR" -> Got(IF a[2] \in Radices THEN Parse(a[1], a[2]) ELSE Illegal)
    [] o = "parseU" -> Got(IF a[2] \in Radices THEN ParseU(a[1], a[2]) ELSE Illegal)
    [] o = "decode" -> Got(Decode(a[1]))
    [] o = "rel" -> LET c == Cmp(objs[a[1]], objs[a[2]]) IN Val(<<B(c = 0), B(c # 0), B(c < 0), B(c > 0), B(c <= 0), B(c >= 0)>> \o (IF kind = 2 THEN <<>> ELSE <<c, B(c = 0)>>))
    [] o = "bits" -> Val(Bits9(a[1]))
    [] o = "rot" -> LET w == Width(a[1]) IN Val(<<RotL(a[1], a[2] % w), RotL(a[1], (w - (a[2] % w)) % w)>>)
    [] o = "cmp" -> Val(<<Cmp(a[1], a[2])>> \o
                        (IF kind = 0 THEN <<LCompareU(a[1], a[2]), IF LCompare(a[1], a[2]) > 0 THEN a[1] ELSE a[2], IF LCompare(a[1], a[2]) < 0 THEN a[1] ELSE a[2], LAdd(a[1], a[2]), ExtendU(a[1], 4)>>
                         ELSE IF kind = 3 THEN <<ExtendU(a[1], 2), ExtendU(a[1], 4)>> ELSE <<>>))
    [] o = "udiv" -> IF a[2] = Zero THEN Fail("arith") ELSE Val(LUDiv(a[1], a[2]))
Strs == [k \in 1..2 |-> <<objs[k], Text(objs[k], 10)>>]
Obs(e) == exc' = e.x /\ res' = e.r /\ e.s = Strs'
-----------------------------------------------------------------------------
Greatest(v) == [v EXCEPT ![Len(v)] = 32767]
Vals == IF Byte THEN {<<0>>, <<1>>, <<255>>, <<10>>} ELSE LET ones == LNot(Zero) min == LNot(Greatest(ones)) IN
        {Zero, LSmall(1, N), ones, min, Greatest(ones)} \cup (IF Part = 20 THEN {LSmall(6, N), LNot(LSmall(6, N))} ELSE {})
Around == {-1, 0, 1}
Near(v) == {v, LAdd(v, LSmall(1, 5)), LSub(v, LSmall(1, 5))}
Wraps == {<<257, 0, 0, 0, 0>>, <<7, 1, 0, 0, 0>>, <<7, 0, 1, 0, 0>>, <<7, 0, 0, 0, 1>>, <<7, 65535, 0, 0, 0>>}     \* small when cut to fewer bits
Bodies == {Numeral(m, 10) : m \in Near(Half) \cup {LZero(5), <<0, 1, 0, 0, 0>>, <<0, 0, 1, 0, 0>>, <<0, 0, 0, 0, 1>>, <<1, 0, 0, 0, 1>>} \cup Wraps} \cup {<<>>, <<48, 48, 55>>, <<49, 97>>, <<32, 49>>, <<49, 32>>, <<49, 46>>, <<49, 43>>, <<43>>, <<45>>, <<0>>, <<49, 0>>, <<49, 101, 49>>}
Texts10 == {s \o b : s \in {<<>>, <<43>>, <<45>>}, b \in Bodies} \cup {<<45, 43, 49>>, <<43, 45, 49>>}
Hexes == {Numeral(m, 16) : m \in Near(Half) \cup Wraps} \cup {<<>>, <<70>>, <<102>>, <<103>>, <<45, 49>>}
Octs == {Numeral(m, 8) : m \in Near(Half) \cup Wraps} \cup {<<>>, <<55>>, <<56>>, <<45, 49>>}
TextsD == {s \o b : s \in {<<>>, <<43>>, <<45>>}, b \in {<<48, 120>> \o h : h \in Hexes} \cup {<<48, 88>> \o h : h \in Hexes} \cup {<<48>> \o h : h \in Octs} \cup {<<49, 50>>, <<48, 120, 48, 120, 49>>}
                   \cup (IF kind = 1 THEN {<<35>> \o h : h \in Hexes} ELSE {})}
Statics == {C("parse", <<t>>) : t \in Texts10} \cup (IF kind = 2 THEN {} ELSE {C("decode", <<t>>) : t \in TextsD} \cup {C("toString", <<v>>) : v \in Vals} \cup
             {C("parseR", <<t, r>>) : t \in {<<>>, <<49, 48>>, <<45, 55>>, <<71>>, <<118>>, <<119>>}, r \in {0, 1, 2, 7, 8, 10, 16, 17, 31, 32} \cup (IF kind = 0 THEN {33} ELSE {37})}) \cup
           (IF kind \in {0, 1} THEN {C("toBase", <<v, r>>) : v \in Vals, r \in {2, 8, 16}} ELSE {}) \cup
           (IF kind = 0 THEN {C(o, <<v, r>>) : o \in {"toStringR", "toUnsigned"}, v \in Vals, r \in {0, 2, 8, 10, 16, 33}} \cup
                             {C("parseU", <<t, 10>>) : t \in Texts10} ELSE {})
Calls == IF \E k \in 1..2 : objs[k] \notin Vals THEN {} ELSE
  {C("make", <<i, v>>) : i \in 1..2, v \in Vals} \cup
  (IF Part = 19 THEN
     {C(o, <<i, 3 - i>>) : o \in {"copy", "assign"}, i \in 1..2} \cup {C("assign", <<1, 1>>), C("makeText", <<1, <<49, 120>>>>), C("makeText", <<2, <<45, 49>>>>), C("as", <<1>>)} \cup
     {C("bop", <<f, 1, 2>>) : f \in 0..4} \cup (IF kind = 2 THEN {} ELSE {C("cop", <<f, 1, j>>) : f \in 0..4, j \in 1..2}) \cup
     (IF objs = <<Zero, Zero>> THEN Statics ELSE {})
   ELSE
     {C("rel", <<1, 2>>), C("rel", <<1, 1>>)} \cup
     (IF kind \in {0, 1} /\ objs = <<Zero, Zero>> THEN
        {C("bits", <<v>>) : v \in Vals \cup {OneBit(Zero, i) : i \in 0..(Width(Zero) - 1)} \cup {LNot(OneBit(Zero, i)) : i \in 0..(Width(Zero) - 1)}} \cup
        {C("rot", <<v, d>>) : v \in Vals, d \in {0, 1, 31, 32, 33, 63, 64, 65, -1, -31, -32, -33, -2147483647, 2147483647}} \cup
        {C("cmp", <<v, w>>) : v \in Vals, w \in Vals} \cup (IF kind = 0 THEN {C("udiv", <<v, w>>) : v \in Vals, w \in Vals} ELSE {}) ELSE
      IF kind = 3 /\ objs = <<Zero, Zero>> THEN {C("cmp", <<v, w>>) : v \in Vals, w \in Vals} ELSE {}))
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TRUE
(* laws of the operators the real code is compared with *)
TypeOK == \A k \in 1..2 : Len(objs[k]) = N /\ \A j \in 1..N : objs[k][j] \in 0..(IF Byte THEN 255 ELSE 65535)
RoundTrip == \A k \in 1..2 : LET v == objs[k] IN
               /\ Parse(Text(v, 10), 10) = [ok |-> TRUE, v |-> v]
               /\ \A r \in {2, 7, 8, 16, 32} : Parse(Text(v, r), r) = [ok |-> TRUE, v |-> v]
               /\ Decode(Text(v, 10)) = [ok |-> TRUE, v |-> v]
Division == LET a == objs[1] b == objs[2] IN b = Zero \/ Byte \/ LAdd(LMul(LDiv(a, b), b), LRem(a, b)) = a
BitLaws == kind \in {0, 1} => LET v == objs[1] IN
             /\ Rev(Rev(v)) = v /\ RevBytes(RevBytes(v)) = v
             /\ \A d \in {0, 1, 15, 31} : RotL(RotL(v, d), (Width(v) - d) % Width(v)) = v /\ LPop(RotL(v, d)) = LPop(v)
             /\ LPop(v) + LPop(LNot(v)) = Width(v)
             /\ v # Zero => OneBit(v, LLow(v)) = LAnd(v, LNeg(v)) /\ LLow(Rev(v)) = Width(v) - 1 - LTop(v)
             /\ Cmp(v, objs[2]) = -Cmp(objs[2], v)
MCView == <<objs, kind>>
=============================================================================

------------------------------- MODULE Printf --------------------------------
(* Property C33: String.format.  A format is text with directives; each directive takes the next argument and stands for its text.   *)
(* An argument is a type and a value: 0 int 1 long 2 long long 3 short 4 unsigned short 5 unsigned int 6 unsigned long 7 double       *)
(* 8 float 9 const_string 10 String 11 bool 12 Boolean 13 Short 14 Integer 15 Long 16 Float 17 Double 18 char 19 string.              *)
(* Integer values are limbs (2 for 32 bits and less, 4 for 64), real ones the bits of a double.                                       *)
EXTENDS RealBase
LOCAL INSTANCE SequencesExt
CONSTANTS Formats, Depth
MaxOf2(x, y) == IF x > y THEN x ELSE y
Digit(c) == c \in 48..57
Flag(c) == c \in {45, 35, 43, 48, 32}                    \* - # + 0 space
Conv == {100, 105, 117, 111, 120, 88, 102, 70, 101, 69, 103, 71, 97, 65, 99, 115, 112, 110, 98, 66, 37}
EndOf(f, p, S(_)) == LET P == {k \in p..Len(f) : ~S(f[k])} IN IF P = {} THEN Len(f) + 1 ELSE CHOOSE x \in P : \A y \in P : x <= y
At(f, p) == IF p <= Len(f) THEN f[p] ELSE -1
Shape(run) == LET P == {k \in 1..Len(run) : run[k] \in {45, 35, 43, 32}} IN          \* digits, flags, digits
              P = {} \/ \A k \in 1..Len(run) : (\E i \in P : i <= k) /\ (\E i \in P : k <= i) => Flag(run[k])
(* the end of the directive at p, 0 if there is none *)
Match0(f, p) ==
  LET r == EndOf(f, p + 1, LAMBDA c : Digit(c) \/ Flag(c))
      d == IF At(f, r) = 46 /\ Digit(At(f, r + 1)) THEN EndOf(f, r + 1, Digit) ELSE r
      l == IF At(f, d) # 108 THEN d ELSE IF At(f, d + 1) # 108 THEN d + 1 ELSE d + 2
  IN IF Shape(SubSeq(f, p + 1, r - 1)) /\ At(f, l) \in Conv THEN l + 1 ELSE 0
Match(f, p) == IF f[p] # 37 THEN 0 ELSE Ev2(Match0, f, p)
NumOf(t) == FoldLeft(LAMBDA acc, c : acc * 10 + (c - 48), 0, t)
(* the parts of a directive t *)
Parts0(t) ==
  LET g == EndOf(t, 2, Flag)
      w == EndOf(t, g, Digit)
      d == IF At(t, w) = 46 THEN EndOf(t, w + 1, Digit) ELSE w
  IN [flags |-> {t[k] : k \in 2..(g - 1)}, width |-> NumOf(SubSeq(t, g, w - 1)), prec |-> IF At(t, w) = 46 THEN NumOf(SubSeq(t, w + 1, d - 1)) ELSE -1, conv |-> t[Len(t)]]
Parts(t) == Ev1(Parts0, t)
Fill(n, c) == [k \in 1..Pos(n) |-> c]
(* sign and prefix, body; zeros go between them *)
Pad(d, pre, body, zeros) ==
  LET n == d.width - Len(pre) - Len(body)
  IN IF 45 \in d.flags THEN pre \o body \o Fill(n, 32) ELSE IF 48 \in d.flags /\ zeros THEN pre \o Fill(n, 48) \o body ELSE Fill(n, 32) \o pre \o body
SignText(d, neg) == IF neg THEN <<45>> ELSE IF 43 \in d.flags THEN <<43>> ELSE IF 32 \in d.flags THEN <<32>> ELSE <<>>
(* integers *)
Glyph(x, up) == IF x < 10 THEN 48 + x ELSE (IF up THEN 55 ELSE 87) + x
Radix(c) == CASE c \in {100, 105, 117} -> 10 [] c = 111 -> 8 [] OTHER -> 16
Whole1(d, neg, mag) ==
  LET zero == mag = LZero(Len(mag))
      ds == IF zero /\ d.prec = 0 THEN <<>> ELSE [k \in 1..Len(LDigits(mag, Radix(d.conv))) |-> Glyph(LDigits(mag, Radix(d.conv))[k], d.conv = 88)]
      full == Fill(d.prec - Len(ds), 48) \o ds
      body == IF d.conv = 111 /\ 35 \in d.flags /\ (full = <<>> \/ full[1] # 48) THEN <<48>> \o full ELSE full
      pre == IF d.conv \in {100, 105} THEN SignText(d, neg) ELSE IF d.conv \in {120, 88} /\ 35 \in d.flags /\ ~zero THEN <<48, d.conv>> ELSE <<>>
  IN Pad(d, pre, body, d.prec < 0)
WholeText(d, v) == LET neg == d.conv \in {100, 105} /\ LNegative(v) IN Ev3(Whole1, d, neg, IF neg THEN LNeg(v) ELSE v)
(* reals: digits with p decimals *)
LimbsFor(bits) == (bits \div 16) + 2
FixedDigits0(v, p) ==
  LET s == Pos(-Expo(v))
      ds == IF s >= 56 + 4 * p THEN <<48>> ELSE Digits(Round(Scaled(v, p, LimbsFor(MaxOf2(s, 0) + Pos(Expo(v)) + 64 + 4 * p))))
  IN Zeros(Pos(p + 1 - Len(ds))) \o ds
FixedDigits(v, p) == Ev2(FixedDigits0, v, p)
Point(ds, p, always) == IF p = 0 THEN (IF always THEN Append(ds, 46) ELSE ds) ELSE Insert(ds, p)
(* n significant digits and the exponent of the first *)
Size(v, j) == LimbsFor(MaxOf2(64 + (10 * Pos(j)) \div 3 + Pos(Expo(v)), 64 + Pos(-Expo(v)) + (10 * Pos(-j)) \div 3))
Lead(v, n, x) == LET sz == Size(v, n - 1 - x) r == Round(Scaled(v, n - 1 - x, sz)) IN
                 IF LCompareU(r, TimesPow10(LSmall(1, sz), n)) >= 0 THEN [d |-> <<49>> \o Zeros(n - 1), x |-> x + 1] ELSE [d |-> Digits(r), x |-> x]
Significant0(v, n) ==
  IF Zero(v) THEN [d |-> Zeros(n), x |-> 0]
  ELSE LET x0 == ((LTop(Mant(v)) + Expo(v)) * 30103) \div 100000
           sz == Size(v, n - 1 - x0)
           more == LCompareU(Scaled(v, n - 1 - x0, sz)[1], TimesPow10(LSmall(1, sz), n)) >= 0
       IN Ev3(Lead, v, n, IF more THEN x0 + 1 ELSE x0)
Significant(v, n) == Ev2(Significant0, v, n)
ExpText(x, up) == LET a == IF x < 0 THEN -x ELSE x IN <<IF up THEN 69 ELSE 101, IF x < 0 THEN 45 ELSE 43>> \o (IF a < 100 THEN Two(a) ELSE <<48 + (a \div 100)>> \o Two(a % 100))
Science(g, up, always) == <<g.d[1]>> \o (IF Len(g.d) > 1 \/ always THEN <<46>> ELSE <<>>) \o Tail(g.d) \o ExpText(g.x, up)
Short(g, n, up, keep) ==
  LET Frac2(t) == IF keep THEN <<46>> \o t ELSE WithPoint(Strip(t))
  IN IF g.x < -4 \/ g.x >= n THEN <<g.d[1]>> \o Frac2(Tail(g.d)) \o ExpText(g.x, up)
     ELSE IF g.x >= 0 THEN SubSeq(g.d, 1, g.x + 1) \o Frac2(SubSeq(g.d, g.x + 2, n))
     ELSE <<48>> \o Frac2(Zeros(-g.x - 1) \o g.d)
Raise1(t) == [k \in DOMAIN t |-> IF t[k] \in 97..122 THEN t[k] - 32 ELSE t[k]]
RealText(d, v) ==
  LET up == d.conv \in {70, 69, 71}  p == IF d.prec < 0 THEN 6 ELSE d.prec  q == IF p = 0 THEN 1 ELSE p  pre == SignText(d, Neg(v))  hash == 35 \in d.flags
  IN IF ~Finite(v) THEN Pad(d, pre, IF up THEN Raise1(Special(v)) ELSE Special(v), FALSE)
     ELSE CASE d.conv \in {102, 70} -> Pad(d, pre, Point(FixedDigits(v, p), p, hash), TRUE)
            [] d.conv \in {101, 69} -> Pad(d, pre, Ev3(Science, Significant(v, p + 1), up, hash), TRUE)
            [] OTHER -> Pad(d, pre, Ev1(LAMBDA g : Short(g, q, up, hash), Significant(v, q)), TRUE)
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>
TextText(d, t) == Pad(d, <<>>, IF d.prec >= 0 /\ d.prec < Len(t) THEN SubSeq(t, 1, d.prec) ELSE t, FALSE)
Rendered(d, v) ==
  CASE d.conv \in {100, 105, 117, 111, 120, 88} -> WholeText(d, v)
    [] d.conv \in {102, 70, 101, 69, 103, 71} -> RealText(d, v)
    [] d.conv = 99 -> Pad(d, <<>>, <<v[1] % 256>>, FALSE)
    [] d.conv = 115 -> TextText(d, v)
    [] d.conv \in {98, 66} -> LET t == IF v = <<1>> THEN TrueText ELSE FalseText IN TextText(d, IF d.conv = 66 THEN Raise1(t) ELSE t)
(* one character or one directive at a time: text so far, arguments used, position after the last directive, enough arguments *)
Piece(f, vs, acc, p) ==
  IF ~acc.ok \/ p < acc.next THEN acc
  ELSE LET m == Match(f, p) IN
       IF m = 0 THEN [acc EXCEPT !.text = Append(@, f[p])]
       ELSE IF f[m - 1] = 37 THEN [acc EXCEPT !.text = Append(@, 37), !.next = m]
       ELSE IF acc.used = Len(vs) THEN [acc EXCEPT !.ok = FALSE]
       ELSE [acc EXCEPT !.text = @ \o Rendered(Parts(SubSeq(f, p, m - 1)), vs[acc.used + 1]), !.used = @ + 1, !.next = m]
Whole0(f, vs) == FoldLeft(LAMBDA acc, p : Piece(f, vs, acc, p), [text |-> <<>>, used |-> 0, next |-> 1, ok |-> TRUE], [k \in 1..Len(f) |-> k])
Output(f, vs) == Ev2(Whole0, f, vs)
-----------------------------------------------------------------------------
Give(r) == res' = r /\ exc' = "" /\ UNCHANGED <<objs, kind>>
Do(o, a) ==
  CASE o = "new" -> New(1)
    [] o = "format" -> LET out == Output(a[1], a[3]) IN IF out.ok THEN Give(<<out.text>>) ELSE res' = <<>> /\ exc' = "interrupted" /\ UNCHANGED <<objs, kind>>
Obs(e) == exc' = e.x /\ res' = e.r
-----------------------------------------------------------------------------
(* the small model: every flag set, width and precision with every conversion *)
I2(n) == IF n >= 0 THEN LSmall(n, 2) ELSE LNeg(LSmall(-n, 2))
FlagTexts == {<<>>, <<45>>, <<48>>, <<43>>, <<32>>, <<35>>, <<48, 45>>, <<45, 48>>, <<43, 32>>, <<35, 48>>, <<48, 43>>}
Widths == {<<>>, <<49>>, <<55>>}
Precs == {<<>>, <<46, 48>>, <<46, 51>>}
Dirs(c) == {<<37>> \o g \o w \o p \o <<c>> : g \in FlagTexts, w \in Widths, p \in Precs}
IntConv == {100, 105, 117, 111, 120, 88}
RealConv == {102, 70, 101, 69, 103, 71}
IntVals == {0, 1, -1, 42, 1000000, -2147483647}
RealVals == {LZero(4), <<0, 0, 0, 32768>>, OfInt(1), OfInt(-42), OfInt(1000000), <<0, 0, 0, 16352>>, <<39322, 39321, 39321, 16313>>, <<0, 0, 0, 32752>>, <<0, 0, 0, 65520>>, <<1, 0, 0, 0>>, <<0, 0, 0, 16388>>, <<65535, 65535, 65535, 16399>>}
SomeTexts == {<<>>, <<104, 105>>, <<37, 100>>}
Plain == {<<>>, <<37>>, <<97, 37, 37>>, <<37, 37, 37>>, <<37, 53, 37>>, <<37, 68, 37, 32>>, <<37, 108, 108, 108, 100>>, <<120, 37, 32, 37, 121>>}
F(f, ts, vs) == C("format", <<f, ts, vs>>)
Calls == {F(d, <<0>>, <<I2(n)>>) : d \in UNION {Dirs(c) : c \in IntConv \cap Formats}, n \in IntVals} \cup {F(d, <<7>>, <<v>>) : d \in UNION {Dirs(c) : c \in RealConv \cap Formats}, v \in RealVals}
         \cup {F(d, <<10>>, <<t>>) : d \in UNION {Dirs(c) : c \in {115} \cap Formats}, t \in SomeTexts}
         \cup (IF 37 \in Formats THEN {F(p, <<>>, <<>>) : p \in Plain \cup {<<37, 100>>, <<37, 37, 37, 115>>}} \cup {F(p \o <<37, 100>> \o q, <<0>>, <<I2(7)>>) : p \in Plain, q \in Plain \cup {<<37, 120>>}}
                                     \cup {F(<<37, 115>> \o p \o <<37, 100>>, <<10, 0>>, <<t, I2(7)>>) : p \in Plain, t \in SomeTexts}
                                     \cup {F(<<37>> \o g \o w \o <<c>>, <<11>>, <<<<b>>>>) : g \in {<<>>, <<45>>}, w \in Widths, c \in {98, 66}, b \in {0, 1}}
                                     \cup {F(<<37>> \o g \o w \o <<99>>, <<18>>, <<I2(n)>>) : g \in {<<>>, <<45>>}, w \in Widths, n \in {1, 65, 37}} ELSE {})
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= Depth
(* theorems *)
Text1(d, v) == Rendered(Parts(d), v)
WidthLaw == \A d \in UNION {Dirs(c) : c \in {100, 120}} : \A n \in IntVals : Len(Text1(d, I2(n))) >= Parts(d).width
Decimal == \A n \in IntVals : LET t == Text1(<<37, 100>>, I2(n)) IN t = (IF n < 0 THEN <<45>> ELSE <<>>) \o Digits(LSmall(IF n < 0 THEN -n ELSE n, 2))
FixedLaw == \A v \in RealVals : Finite(v) => Text1(<<37, 46, 49, 53, 102>>, v) = Text(v)                   \* %.15f is the text of a Double
Same == \A v \in RealVals : Finite(v) /\ ~Zero(v) /\ EField(v) > 0 => LET g == Significant(v, 17) IN g.d[1] # 48 /\ Len(g.d) = 17
                                                 /\ Nearest(BigOf(g.d, 60), g.x - 16, v)     \* 17 digits tell doubles apart
MCView == <<objs, kind>>
=============================================================================

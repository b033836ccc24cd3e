-------------------------------- MODULE Real ---------------------------------
(* Property C27: Float (kind 0) and Double (kind 1) objects holding values, converted to and from bits and text. *)
EXTENDS RealBase
LOCAL INSTANCE SequencesExt
-----------------------------------------------------------------------------
Ret(r) == res' = r /\ exc' = "" /\ UNCHANGED <<objs, kind>>
Fail(x) == res' = <<>> /\ exc' = x /\ UNCHANGED <<objs, kind>>
Sub(i, v) == objs' = [objs EXCEPT ![i] = v] /\ UNCHANGED kind /\ res' = <<>> /\ exc' = ""
B(x) == IF x THEN 1 ELSE 0
(* whole part of a value below 2^31 in magnitude, as an integer *)
Whole0(v) == LET w == Scaled(v, 0, 6)[1] IN IF Neg(v) THEN -ToInt(Low32(w)) ELSE ToInt(Low32(w))
Whole(v) == Ev1(Whole0, v)
IntArith(f, x, y) == CASE f = 0 -> x + y [] f = 1 -> x - y [] f = 2 -> x * y [] f = 3 -> LET q == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o = "make" -> Sub(a[1], a[2])
    [] o \in {"copy", "assign"} -> Sub(a[1], objs[a[2]])
    [] o = "int" -> Sub(a[1], OfInt(a[2]))
    [] o = "rel" -> LET x == objs[a[1]] y == objs[a[2]] c == Cmp(x, y) IN
                    Ret(<<B(c = 0), B(c # 0), B(c < 0), B(c > 0), B(c <= 0), B(c >= 0), c, c, B(c = 0), Hash(x), Hash(y)>>)
    [] o = "bits" -> Ret(<<Key(a[1]), Key(a[1]), Hash(a[1]), B(NaN(a[1])), B(Inf(a[1])), B(Finite(a[1])), B(NaN(a[1])), B(Inf(a[1]))>>)
    [] o = "ofBits" -> Ret(<<IF kind = 0 THEN a[1] ELSE OfKey(a[1])>>)
    [] o = "min" -> LET c == Cmp(a[1], a[2]) IN (c <= 0 /\ Ret(<<a[1]>>)) \/ (c >= 0 /\ Ret(<<a[2]>>))
    [] o = "arith" -> Ret(<<OfInt(IntArith(a[1], a[2], a[3]))>>)
    [] o = "change" -> Sub(a[2], OfInt(IntArith(a[1], Whole(objs[a[2]]), a[3])))       \* compound assignment, the object holding a small integer
    [] o = "whole" -> Ret(<<Whole(objs[a[1]])>>)
    [] o = "text" -> Ret(<<Text(objs[a[1]])>>) \/ (NaN(objs[a[1]]) /\ Neg(objs[a[1]]) /\ Ret(<<<<45>> \o Special(objs[a[1]])>>))
    [] o = "calc" -> UNCHANGED <<objs, kind>>                                            \* see Obs
    [] o = "update" -> kind' = kind
    [] o = "parse" -> IF Numeral(a[2]).ok THEN kind' = kind ELSE Fail("number")       \* see Obs
Parsed(e) == /\ e.x = "" /\ e.r # <<>> /\ Denotes(e.a[2], e.r[1])
             /\ objs' = [objs EXCEPT ![e.a[1]] = e.r[1]] /\ res' = e.r /\ exc' = ""
Calced(e) == e.x = "" /\ Len(e.r) = 1 /\ Calc(e.a[1], e.a[2], e.a[3], e.r[1]) /\ res' = e.r /\ exc' = ""
Updated(e) == /\ e.x = "" /\ e.r = <<>> /\ Calc(e.a[1], objs[e.a[2]], e.a[3], e.s[e.a[2]])
              /\ objs' = [objs EXCEPT ![e.a[2]] = e.s[e.a[2]]] /\ res' = <<>> /\ exc' = ""
Obs(e) == /\ IF e.o = "calc" THEN Calced(e) ELSE IF e.o = "update" THEN Updated(e) ELSE IF e.o = "parse" /\ Numeral(e.a[2]).ok THEN Parsed(e) ELSE exc' = e.x /\ res' = e.r
          /\ e.s = <<objs'[1], objs'[2]>>
-----------------------------------------------------------------------------
(* the small model: special values and their neighbours *)
SmallVals == {v \in Vals : NaN(v) \/ EField(v) \in {0, Bias, EMax}}
Illegals == {<<>>, <<97, 98, 99>>, <<45>>, <<46>>, <<101, 53>>, <<49, 101>>, <<49, 101, 43>>, <<49, 97>>, <<49, 46, 50, 46, 51>>, <<45, 45, 49>>, <<49, 44, 53>>, <<49, 45>>, <<49, 0>>}
Start == objs = <<LZero(N), LZero(N)>>
Calls == {C("make", <<i, v>>) : i \in 1..2, v \in SmallVals} \cup {C(o, <<1, 2>>) : o \in {"copy", "assign", "rel"}} \cup {C("assign", <<1, 1>>), C("rel", <<1, 1>>), C("text", <<1>>)}
         \cup (IF Start THEN {C("bits", <<v>>) : v \in Vals} \cup {C("make", <<1, v>>) : v \in Vals}
                             \cup {C("ofBits", <<k>>) : k \in (IF kind = 0 THEN Vals ELSE {Key(v) : v \in {x \in Vals : ~NaN(x)}})}
                             \cup {C("min", <<v, w>>) : v \in SmallVals \ {NaNOf}, w \in SmallVals \ {NaNOf}}
                             \cup {C("arith", <<f, x, y>>) : f \in 0..1, x \in {0, 1, -3, 7}, y \in {1, -2}} \cup {C("arith", <<f, x, y>>) : f \in 2..3, x \in {6, -12}, y \in {1, -2, 3}}
                             \cup {C("int", <<1, n>>) : n \in {0, 1, -1, 100, 65537, 8388607}} \cup {C("parse", <<1, t>>) : t \in Illegals} ELSE {})
         \cup (IF objs[2] = LZero(N) /\ objs[1] \in {OfInt(n) : n \in {0, 1, -1, 100}} THEN {C("change", <<f, 1, n>>) : f \in (IF Start THEN 0..1 ELSE 0..3), n \in {1, -1}} \cup {C("whole", <<1>>)} ELSE {})
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TRUE
(* theorems of the model *)
TypeOK == \A k \in 1..2 : Len(objs[k]) = N /\ \A j \in 1..N : objs[k][j] \in 0..65535
Order == /\ Cmp(objs[1], objs[2]) = -Cmp(objs[2], objs[1])
         /\ (Cmp(objs[1], objs[2]) = 0) = (objs[1] = objs[2] \/ (Zero(objs[1]) /\ Zero(objs[2])) \/ (NaN(objs[1]) /\ NaN(objs[2])))
         /\ Cmp(objs[1], objs[2]) = 0 => Hash(objs[1]) = Hash(objs[2])
         /\ \A k \in 1..2 : ~NaN(objs[k]) => OfKey(Key(objs[k])) = Canon(objs[k])
(* a text of a float rounds back when its six digits suffice; every value's text is a numeral near it *)
TextIsNumeral == \A k \in 1..2 : Finite(objs[k]) => Numeral(Text(objs[k])).ok /\ Numeral(Text(objs[k])).minus = Neg(objs[k])
Integers0 == {0, 1, -1, 2, 3, 100, -100, 65535, 65536, 99999, 8388607}
IntLaws == \A n \in Integers0 : Whole(OfInt(n)) = n /\ (n # 0 => Nearest(BigOf(Digits(LSmall(IF n < 0 THEN -n ELSE n, 4)), 12 + Abs(Expo(OfInt(n))) \div 16), 0, OfInt(n)))
MCView == <<objs, kind>>
=============================================================================

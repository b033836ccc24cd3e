------------------------------- MODULE Values -------------------------------
(* Property C32: Boolean (kind 0), Character (kind 1) and Enum (kind 2) objects. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Text
C(o, a) == [o |-> o, a |-> a]
CONSTANTS Kinds, Texts, Chars, Names, Nums
VARIABLES objs, kind, res, exc
vars == <<objs, kind, res, exc>>
Fresh(k) == CASE k = 0 -> <<0, 0>> [] k = 1 -> <<0, 0>> [] k = 2 -> <<[name |-> <<65>>, ord |-> 0], [name |-> <<65>>, ord |-> 0]>>
New(k) == objs' = Fresh(k) /\ kind' = k /\ res' = <<>> /\ exc' = ""
Init == kind \in Kinds /\ objs = Fresh(kind) /\ res = <<>> /\ exc = ""
Put(i, v) == objs' = [objs EXCEPT ![i] = v] /\ res' = <<>> /\ exc' = "" /\ UNCHANGED kind
Ret(r) == res' = r /\ exc' = "" /\ UNCHANGED <<objs, kind>>
Fail(x) == res' = <<>> /\ exc' = x /\ UNCHANGED <<objs, kind>>
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Cmp(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
-----------------------------------------------------------------------------
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
Parse(t) == Bool([k \in DOMAIN t |-> Low(t[k])] = TrueText)
Shown(b) == IF b = 1 THEN TrueText ELSE FalseText
Digit1(p) == IF p \in 48..57 THEN p - 48 ELSE IF p \in 97..122 THEN p - 87 ELSE IF p \in 65..90 THEN p - 55 ELSE -1
DigitIn(p, r) == IF r < 2 \/ r > 36 \/ Digit1(p) >= r THEN -1 ELSE Digit1(p)
S8(c) == IF c > 127 THEN c - 256 ELSE c                   \* a char is signed
Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o \in {"copy", "assign"} -> Put(a[1], objs[a[2]])
    (* Boolean *)
    [] o \in {"make", "valueOf"} -> Put(a[1], a[2])
    [] o \in {"makeText", "valueOfText", "valueOfString"} -> Put(a[1], Parse(a[2]))
    [] o \in {"parse", "getBoolean"} -> Ret(<<Parse(a[1])>>)
    [] o = "texts" -> Ret(<<Shown(objs[a[1]]), Shown(objs[a[1]]), Shown(objs[a[1]])>>)
    [] o = "again" -> Put(a[1], objs[a[2]])                                         \* made from the text of the other
    [] o = "compareB" -> Ret(<<Cmp(objs[a[1]], objs[a[2]]), Cmp(objs[a[1]], objs[a[2]])>>)
    [] o = "equalB" -> Ret(<<Bool(objs[a[1]] = objs[a[2]]), Bool(objs[a[1]] = objs[a[2]]), Bool(objs[a[1]] # objs[a[2]]), 1>>)        \* equals, ==, !=, equal objects have equal hash codes
    (* Character *)
    [] o = "makeC" -> Put(a[1], a[2])
    [] o = "compareC" -> Ret(<<Cmp(S8(objs[a[1]]), S8(objs[a[2]])), Cmp(S8(objs[a[1]]), S8(objs[a[2]]))>>)
    [] o = "digit" -> Ret(<<DigitIn(a[1], a[2])>>)
    [] o = "charCount" -> Ret(<<IF a[2] >= 65536 THEN 2 ELSE 1>>)
    [] o = "pointAt" -> IF a[2] >= 0 /\ a[2] < Len(a[1]) THEN Ret(<<a[1][a[2] + 1]>>) ELSE Fail("std")
    [] o = "pointAtLimit" -> IF a[2] >= a[3] \/ a[3] < 0 \/ a[3] > Len(a[1]) THEN Ret(<<-1>>) ELSE IF a[2] >= 0 THEN Ret(<<a[1][a[2] + 1]>>) ELSE Fail("std")
    [] o = "pointBefore" -> IF a[2] > 0 /\ a[2] <= Len(a[1]) THEN Ret(<<a[1][a[2]]>>) ELSE Fail("std")
    [] o = "pointBeforeStart" -> IF a[2] <= a[3] \/ a[3] < 0 \/ a[3] >= Len(a[1]) THEN Ret(<<-1>>) ELSE IF a[2] <= Len(a[1]) THEN Ret(<<a[1][a[2]]>>) ELSE Fail("std")
    [] o = "pointCount" -> Ret(<<IF a[2] < 0 \/ a[3] < 0 \/ a[2] > Len(a[1]) \/ a[3] > Len(a[1]) - a[2] THEN -1 ELSE a[3]>>)
    (* Enum *)
    [] o = "makeE" -> Put(a[1], [name |-> a[2], ord |-> a[3]])
    [] o = "textsE" -> Ret(<<objs[a[1]].name, objs[a[1]].name>>)
    [] o = "compareE" -> Ret(<<Cmp(objs[a[1]].ord, objs[a[2]].ord), Bool(objs[a[1]].ord = objs[a[2]].ord)>>)
Obs(e) == exc' = e.x /\ res' = e.r /\ \A i \in 1..2 : e.s[i] = IF kind' = 2 THEN <<objs'[i].name, objs'[i].ord>> ELSE <<objs'[i]>>
-----------------------------------------------------------------------------
P == {1, 2} \X {1, 2}
Arrs == {<<>>, <<97>>, <<97, 98>>}
Calls == {C(o, p) : o \in {"copy", "assign"}, p \in P} \cup
         (CASE kind = 0 -> {C(o, <<i, b>>) : o \in {"make", "valueOf"}, i \in {1, 2}, b \in {0, 1}} \cup {C(o, <<1, t>>) : o \in {"makeText", "valueOfText", "valueOfString"}, t \in Texts}
                           \cup {C(o, <<t>>) : o \in {"parse", "getBoolean"}, t \in Texts} \cup {C("texts", <<i>>) : i \in {1, 2}} \cup {C(o, p) : o \in {"again", "compareB", "equalB"}, p \in P}
            [] kind = 1 -> {C("makeC", <<i, c>>) : i \in {1, 2}, c \in Chars} \cup {C("compareC", p) : p \in P} \cup {C("digit", <<p, r>>) : p \in Nums, r \in {1, 2, 10, 16, 36, 37}} \cup {C("charCount", <<1, p>>) : p \in Nums}
                           \cup {C(o, <<t, k>>) : o \in {"pointAt", "pointBefore"}, t \in Arrs, k \in -1..3} \cup {C(o, <<t, k, l>>) : o \in {"pointAtLimit", "pointBeforeStart", "pointCount"}, t \in Arrs, k \in -1..3, l \in -1..3}
            [] kind = 2 -> {C("makeE", <<i, n, k>>) : i \in {1, 2}, n \in Names, k \in {0, 1, 2147483647}} \cup {C("textsE", <<i>>) : i \in {1, 2}} \cup {C("compareE", p) : p \in P})
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TRUE
TextSet == {<<>>, TrueText, FalseText, <<84, 114, 117, 101>>, <<84, 82, 85, 69>>, <<116, 114, 117, 101, 32>>, <<49>>, <<116, 114, 117>>, <<70, 97, 108, 115, 101>>}
NumSet == {-1, 0, 47, 48, 49, 57, 58, 64, 65, 70, 71, 90, 91, 96, 97, 102, 103, 122, 123, 65535, 65536, 1114111}
NameSet == {<<>>, <<65>>, <<66, 95, 49>>}
RoundTrip == \A b \in {0, 1} : Parse(Shown(b)) = b
Digits == \A r \in 2..36 : Cardinality({p \in 0..127 : DigitIn(p, r) >= 0}) = (IF r <= 10 THEN r ELSE 10 + 2 * (r - 10)) /\ \A p \in 0..127 : DigitIn(p, r) < r
MCView == <<objs, kind>>
=============================================================================

------------------------------- MODULE Media --------------------------------
(* Property C25: two media types, each a type, a subtype and parameters (name-value pairs in the order of their names). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Text
C(o, a) == [o |-> o, a |-> a]
VARIABLES mt, res, exc
vars == <<mt, res, exc>>
CONSTANTS Types, Subs, Depth
Star == <<42>>
AnyType == [t |-> Star, s |-> Star, p |-> <<>>]
New(k) == mt' = <<AnyType, AnyType>> /\ res' = <<>> /\ exc' = ""
Init == mt = <<AnyType, AnyType>> /\ res = <<>> /\ exc = ""
-----------------------------------------------------------------------------
Plus == 43
Slash == 47
LegalParts(t, s) == t # <<>> /\ s # <<>> /\ (t = Star => s = Star)
HasPlus(s) == \E k \in 1..Len(s) : s[k] = Plus
Suffix(s) == Sub(s, IndexOfVal(s, Plus, 0), Len(s))
Before(s) == Sub(s, 0, IndexOfVal(s, Plus, 0))
WildSub(s) == s = Star \/ (Len(s) >= 2 /\ s[1] = 42 /\ s[2] = Plus)
SubMatch(a, b) == \/ a = b \/ a = Star \/ b = Star
                  \/ HasPlus(a) /\ HasPlus(b) /\ Suffix(a) = Suffix(b) /\ (Before(a) = Star \/ Before(b) = Star)
Compatible(x, y) == \/ x.t = Star \/ y.t = Star
                    \/ x.t = y.t /\ SubMatch(x.s, y.s)
Str(x) == x.t \o <<Slash>> \o x.s
Blank(c) == c <= 32
RECURSIVE TrimL(_)
TrimL(t) == IF t # <<>> /\ Blank(t[1]) THEN TrimL(Tail(t)) ELSE t
Trim(t) == Rev(TrimL(Rev(TrimL(t))))
Head0(t) == LET p == IndexOfVal(t, 59, 0) IN Trim(IF p < 0 THEN t ELSE Sub(t, 0, p))         \* without parameters
Whole(t) == LET h == Head0(t) IN IF h = Star THEN <<42, Slash, 42>> ELSE h
TypeOf(h) == Sub(h, 0, IndexOfVal(h, Slash, 0))
SubOf(h) == Sub(h, IndexOfVal(h, Slash, 0) + 1, Len(h))
LegalText(t) == LET h == Whole(t) IN IndexOfVal(h, Slash, 0) >= 0 /\ LegalParts(TypeOf(h), SubOf(h))
(* nothing is said of texts with several slashes *)
OneSlash(t) == Cardinality({k \in 1..Len(Head0(t)) : Head0(t)[k] = Slash}) <= 1
Set(i, v) == mt' = [mt EXCEPT ![i] = v] /\ res' = <<>> /\ exc' = ""
Ret(r) == res' = r /\ exc' = "" /\ UNCHANGED mt
Fail(x) == res' = <<>> /\ exc' = x /\ UNCHANGED mt
Lower(x, y) == \E k \in {j \in 1..Len(y) : j <= Len(x) + 1} : SubSeq(x, 1, k - 1) = SubSeq(y, 1, k - 1) /\ (k > Len(x) \/ x[k] < y[k])
(* a map from a list of pairs, the later one of equal names prevailing; in the order of names *)
Names(ps) == {ps[k][1] : k \in 1..Len(ps)}
LastOf(ps, n) == ps[CHOOSE k \in 1..Len(ps) : ps[k][1] = n /\ \A j \in (k + 1)..Len(ps) : ps[j][1] # n]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Lower(x, y) IN <<m>> \o Sorted(S \ {m})
MapOf(ps) == LET ns == Sorted(Names(ps)) IN [k \in 1..Len(ns) |-> LastOf(ps, ns[k])]
Do(o, a) ==
  CASE o = "new" -> New(0)
    [] o = "make" -> IF LegalParts(a[2], a[3]) THEN Set(a[1], [t |-> a[2], s |-> a[3], p |-> <<>>]) ELSE Fail("mediatype")
    [] o = "makeP" -> IF LegalParts(a[2], a[3]) THEN Set(a[1], [t |-> a[2], s |-> a[3], p |-> MapOf(a[4])]) ELSE Fail("mediatype")
    [] o = "any" -> Set(a[1], AnyType)
    [] o \in {"copy", "assign"} -> Set(a[1], mt[a[2]])
    [] o = "parse" -> IF LegalText(a[2]) THEN Set(a[1], [t |-> TypeOf(Whole(a[2])), s |-> SubOf(Whole(a[2])), p |-> <<>>]) ELSE Fail("mediatype")
    [] o = "reparse" -> Set(a[1], [mt[a[2]] EXCEPT !.p = <<>>])                   \* from the other's string form
    [] o = "string" -> Ret(<<Str(mt[a[1]])>>)
    [] o = "wild" -> Ret(<<Bool(mt[a[1]].t = Star), Bool(WildSub(mt[a[1]].s))>>)
    [] o = "compatible" -> Ret(<<Bool(Compatible(mt[a[1]], mt[a[2]]))>>)
Obs(e) == exc' = e.x /\ res' = e.r /\ \A i \in 1..2 : e.s[i] = <<mt'[i].t, mt'[i].s, mt'[i].p>>
-----------------------------------------------------------------------------
Texts == {<<>>, Star, <<32>>, <<59>>, <<47>>, <<32, 42, 32, 59, 113>>, <<97>>, <<97, 47>>, <<47, 97>>, <<47, 97, 59>>, <<42, 47, 97>>, <<42, 47, 42, 43, 97>>}
         \cup {t \o <<47>> \o s : t \in Types, s \in Subs} \cup {<<32>> \o t \o <<47>> \o s \o <<9, 59, 97, 61, 47>> : t \in Types, s \in Subs}
Params == <<<<<<98>>, <<49>>>>, <<<<97>>, <<50>>>>, <<<<98>>, <<>>>>>>
Calls == (IF mt[2] = AnyType THEN {C("make", <<1, t, s>>) : t \in Types \cup {<<>>}, s \in Subs \cup {<<>>}} \cup {C("parse", <<1, t>>) : t \in Texts} ELSE {})
         \cup {C("make", <<2, t, s>>) : t \in Types, s \in Subs} \cup {C("makeP", <<i, t, <<99>>, Params>>) : i \in 1..2, t \in {<<97>>, Star}}
         \cup {C(o, <<2, 1>>) : o \in {"copy", "assign", "reparse"}} \cup {C(o, <<i>>) : o \in {"any", "string", "wild"}, i \in 1..2}
         \cup {C("compatible", <<i, j>>) : i, j \in 1..2}
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= Depth
TypeSet == {Star, <<97>>, <<98, 43>>}
SubSet == {Star, <<97>>, <<120>>, <<42, 43, 120>>, <<97, 43, 120>>, <<98, 43, 121>>, <<42, 43>>, <<42, 120>>, <<43, 120>>}
(* theorems of the model *)
Symmetric == Compatible(mt[1], mt[2]) = Compatible(mt[2], mt[1]) /\ \A i \in 1..2 : Compatible(mt[i], mt[i]) /\ Compatible(mt[i], AnyType)
RoundTrip == \A i \in 1..2 : OneSlash(Str(mt[i])) => LegalText(Str(mt[i])) /\ TypeOf(Whole(Str(mt[i]))) = mt[i].t /\ SubOf(Whole(Str(mt[i]))) = mt[i].s
MCView == mt
=============================================================================

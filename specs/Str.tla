-------------------------------- MODULE Str ---------------------------------
(* Properties C14 and C15: two String variables as sequences of bytes 0..255. *)
EXTENDS Text
VARIABLES strs, res, exc
vars == <<strs, res, exc>>
Slots == {1, 2}
CONSTANTS Part, Alpha, MaxLen, MaxLen2      \* model: calls considered (14 or 15), characters, lengths

Init == strs = [s \in Slots |-> <<>>] /\ res = <<>> /\ exc = ""
New(k) == strs' = [s \in Slots |-> <<>>] /\ res' = <<>> /\ exc' = ""
T(s) == strs[s]
N(s) == Len(strs[s])
Put(s, v) == strs' = [strs EXCEPT ![s] = v] /\ res' = <<>> /\ exc' = ""
Tell(r) == UNCHANGED strs /\ exc' = "" /\ res' = r
TellOne(R) == UNCHANGED strs /\ exc' = "" /\ res' \in R
Refuse == UNCHANGED strs /\ res' = <<>> /\ exc' = "index"
Part0(t, o, n) == 0 <= o /\ 0 <= n /\ o <= Len(t) - n
-----------------------------------------------------------------------------
(* Definitions over sequences *)
RECURSIVE Repl(_, _, _)           \* every occurrence of p, left to right, not overlapping, becomes q
Repl(t, p, q) ==
  IF p = <<>> THEN IF t = <<>> THEN q ELSE q \o <<t[1]>> \o Repl(Tail(t), p, q)
  ELSE LET k == FirstAt(t, p, 0) IN IF k < 0 THEN t ELSE Sub(t, 0, k) \o q \o Repl(Sub(t, k + Len(p), Len(t)), p, q)
ReplFirst(t, p, q) == LET k == FirstAt(t, p, 0) IN IF k < 0 THEN t ELSE Sub(t, 0, k) \o q \o Sub(t, k + Len(p), Len(t))
RECURSIVE Pieces(_, _)
Pieces(t, p) ==
  IF p = <<>> THEN IF t = <<>> THEN <<t>> ELSE [k \in 1..Len(t) |-> <<t[k]>>]
  ELSE LET k == FirstAt(t, p, 0) IN IF k < 0 THEN <<t>> ELSE <<Sub(t, 0, k)>> \o Pieces(Sub(t, k + Len(p), Len(t)), p)
PiecesUpTo(t, p, n) ==
  LET ps == Pieces(t, p)
  IN IF n = 1 THEN <<t>> ELSE IF n <= 0 \/ n >= Len(ps) THEN ps
     ELSE SubSeq(ps, 1, n - 1) \o <<JoinText(SubSeq(ps, n, Len(ps)), p)>>
Blank == {9, 10, 11, 12, 13, 32}
Trimmed(t) == LET K == {k \in 1..Len(t) : t[k] \notin Blank} IN IF K = {} THEN <<>> ELSE SubSeq(t, MinOf(K), MaxOf(K))
(* case: ASCII and the Latin-1 letters, which are 195 followed by another byte *)
Latin(t, k) == k > 1 /\ t[k - 1] = 195
LowerOf(t) == [k \in 1..Len(t) |-> IF t[k] \in 65..90 \/ (Latin(t, k) /\ t[k] \in 128..158 /\ t[k] # 151) THEN t[k] + 32 ELSE t[k]]
UpperOf(t) == [k \in 1..Len(t) |-> IF t[k] \in 97..122 \/ (Latin(t, k) /\ t[k] \in 160..190 /\ t[k] # 183) THEN t[k] - 32 ELSE t[k]]
Plain(t) == \A k \in 1..Len(t) : \/ t[k] <= 127
                                 \/ t[k] = 195 /\ k < Len(t) /\ t[k + 1] \in 128..190
                                 \/ t[k] \in 128..190 /\ Latin(t, k)
Fold(t) == [k \in 1..Len(t) |-> IF t[k] \in 65..90 THEN t[k] + 32 ELSE t[k]]
Clip(t, o, n) == Sub(t, o, Min2(Len(t), IF n > Len(t) THEN Len(t) ELSE o + Max2(n, 0)))
Region(f(_), t, o, u, q, n) == 0 <= o /\ o <= Len(t) /\ 0 <= q /\ q <= Len(u) /\ f(Clip(t, o, n)) = f(Clip(u, q, n))
Same(t) == t
(* lexicographic order of bytes: -1, 0 or 1 *)
Cmp(t, u) ==
  LET D == {k \in 1..Min2(Len(t), Len(u)) : t[k] # u[k]}
  IN IF D = {} THEN (IF Len(t) < Len(u) THEN -1 ELSE IF Len(t) > Len(u) THEN 1 ELSE 0)
     ELSE IF t[MinOf(D)] < u[MinOf(D)] THEN -1 ELSE 1
(* polynomial hash modulo 2^32 as <<low, high>> 16-bit halves; a byte counts as a signed number *)
RECURSIVE HashOf(_)
HashOf(t) == IF t = <<>> THEN <<0, 0>>
             ELSE LET h == HashOf(SubSeq(t, 1, Len(t) - 1))
                      c == t[Len(t)]
                      lo == h[1] * 31 + (IF c > 127 THEN c - 256 ELSE c)
                  IN <<lo % 65536, (h[2] * 31 + lo \div 65536) % 65536>>
BoolText(b) == IF b = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
-----------------------------------------------------------------------------
(* where the empty text occurs is left open; near the end a backward search may miss what would not fit there *)
IndexOf(s, t, i) == IF t = <<>> THEN TellOne({<<-1>>, <<Min2(Max2(i, 0), N(s))>>}) ELSE Tell(<<FirstAt(T(s), t, Max2(i, 0))>>)
LastIndexOf(s, t, i) == TellOne({<<IF i < 0 THEN -1 ELSE LastAt(T(s), t, i)>>} \cup (IF i < N(s) /\ i + Len(t) <= N(s) THEN {} ELSE IF i >= N(s) /\ N(s) > 0 THEN {} ELSE {<<-1>>}))
GetChars(s, b, e, n, d) == IF 0 <= b /\ b <= e /\ e <= N(s) /\ 0 <= d /\ d + (e - b) <= n
                           THEN Tell([k \in 1..n |-> IF k > d /\ k <= d + (e - b) THEN T(s)[b + k - d] ELSE 46]) ELSE Refuse

Do(o, a) ==
  CASE o = "new" -> New(0)
    [] o \in {"set", "fromChars", "fromBytes", "copyValueOf", "fromCharArray", "fromStd"} -> Put(a[1], a[2])
    [] o \in {"fromCharsPart", "fromBytesPart", "copyValuePart"} -> IF Part0(a[2], a[3], a[4]) THEN Put(a[1], Sub(a[2], a[3], a[3] + a[4])) ELSE Refuse
    [] o = "fromPointer" -> Put(a[1], Sub(a[2], 0, a[3]))
    [] o \in {"assign", "copy", "clone", "toString", "valueOfString"} -> Put(a[2], T(a[1]))
    [] o = "plusAssign" -> Put(a[1], T(a[1]) \o a[2])
    [] o = "plusAssignChar" -> Put(a[1], T(a[1]) \o <<a[2]>>)
    [] o = "plusAssignPointer" -> Put(a[1], T(a[1]) \o a[2])
    [] o = "plusAssignOther" -> Put(a[1], T(a[1]) \o T(a[2]))
    [] o = "setAt" -> Put(a[1], [k \in 1..N(a[1]) |-> IF k = a[2] + 1 THEN a[3] ELSE T(a[1])[k]])
    [] o \in {"concat", "plus"} -> Tell(T(a[1]) \o a[2])
    [] o = "charAt" -> IF 0 <= a[2] /\ a[2] < N(a[1]) THEN Tell(<<T(a[1])[a[2] + 1]>>) ELSE Refuse
    [] o = "at" -> Tell(<<T(a[1])[a[2] + 1]>>)                       \* only for legal indexes
    [] o \in {"length", "getSize"} -> Tell(<<N(a[1])>>)
    [] o = "isEmpty" -> Tell(<<Bool(N(a[1]) = 0)>>)
    [] o = "indexOfChar" -> Tell(<<IndexOfVal(T(a[1]), a[2], 0)>>)
    [] o = "indexOfCharFrom" -> Tell(<<IndexOfVal(T(a[1]), a[2], Max2(a[3], 0))>>)
    [] o = "lastIndexOfChar" -> Tell(<<LastIndexOfVal(T(a[1]), a[2], N(a[1]))>>)
    [] o = "lastIndexOfCharFrom" -> Tell(<<IF a[3] < 0 THEN -1 ELSE LastIndexOfVal(T(a[1]), a[2], a[3])>>)
    [] o = "indexOf" -> IndexOf(a[1], a[2], 0)
    [] o = "indexOfFrom" -> IndexOf(a[1], a[2], a[3])
    [] o = "lastIndexOf" -> Tell(<<LastAt(T(a[1]), a[2], N(a[1]))>>)
    [] o = "lastIndexOfFrom" -> LastIndexOf(a[1], a[2], a[3])
    [] o \in {"contains", "containsSeq"} -> Tell(<<Bool(a[2] = <<>> \/ FirstAt(T(a[1]), a[2], 0) >= 0)>>)
    [] o = "startsWith" -> Tell(<<Bool(OccursAt(T(a[1]), a[2], 0))>>)
    [] o = "startsWithFrom" -> Tell(<<Bool(OccursAt(T(a[1]), a[2], a[3]))>>)
    [] o = "endsWith" -> Tell(<<Bool(OccursAt(T(a[1]), a[2], N(a[1]) - Len(a[2])))>>)
    [] o = "subStringFrom" -> IF 0 <= a[2] /\ a[2] <= N(a[1]) THEN Tell(Sub(T(a[1]), a[2], N(a[1]))) ELSE Refuse
    [] o = "getStringFromIndex" -> IF 0 <= a[2] /\ a[2] < N(a[1]) THEN Tell(Sub(T(a[1]), a[2], N(a[1]))) ELSE Refuse
    [] o = "subString" -> IF 0 <= a[2] /\ a[2] <= a[3] /\ a[3] <= N(a[1]) THEN Tell(Sub(T(a[1]), a[2], a[3])) ELSE Refuse
    [] o = "replaceChar" -> Tell([k \in 1..N(a[1]) |-> IF T(a[1])[k] = a[2] THEN a[3] ELSE T(a[1])[k]])
    [] o \in {"replace", "replaceAll"} -> Tell(Repl(T(a[1]), a[2], a[3]))
    [] o = "replaceFirst" -> Tell(ReplFirst(T(a[1]), a[2], a[3]))
    [] o = "trim" -> Tell(Trimmed(T(a[1])))
    [] o = "toLowerCase" -> UNCHANGED strs /\ exc' = "" /\ (Plain(T(a[1])) => res' = LowerOf(T(a[1])))
    [] o = "toUpperCase" -> UNCHANGED strs /\ exc' = "" /\ (Plain(T(a[1])) => res' = UpperOf(T(a[1])))
    [] o = "split" -> Tell(Pieces(T(a[1]), a[2]))
    [] o = "splitUpTo" -> Tell(PiecesUpTo(T(a[1]), a[2], a[3]))
    [] o = "join" -> Tell(JoinText(a[2], T(a[1])))
    [] o \in {"toCharArray", "getBytes", "toStd"} -> Tell(T(a[1]))
    [] o = "getChars" -> GetChars(a[1], a[2], a[3], a[4], a[5])
    [] o = "regionMatches" -> Tell(<<Bool(IF a[2] = 1 THEN Region(Fold, T(a[1]), a[3], a[4], a[5], a[6]) ELSE Region(Same, T(a[1]), a[3], a[4], a[5], a[6]))>>)
    [] o = "valueOfChar" -> TellOne({<<a[2]>>} \cup (IF a[2] = 0 THEN {<<>>} ELSE {}))
    [] o = "valueOfInt" -> Tell(Dec(a[2]))
    [] o = "valueOfBool" -> Tell(BoolText(a[2]))
    \* C15
    [] o \in {"equals", "eq"} -> Tell(<<Bool(T(a[1]) = T(a[2]))>>)
    [] o = "ne" -> Tell(<<Bool(T(a[1]) # T(a[2]))>>)
    [] o = "contentEquals" -> Tell(<<Bool(T(a[1]) = T(a[2]))>>)
    [] o = "compareTo" -> Tell(<<Cmp(T(a[1]), T(a[2]))>>)
    [] o = "compareToIgnoreCase" -> Tell(<<Cmp(Fold(T(a[1])), Fold(T(a[2])))>>)
    [] o = "equalsIgnoreCase" -> Tell(<<Bool(Fold(T(a[1])) = Fold(T(a[2])))>>)
    [] o = "lt" -> Tell(<<Bool(Cmp(T(a[1]), T(a[2])) < 0)>>)
    [] o = "gt" -> Tell(<<Bool(Cmp(T(a[1]), T(a[2])) > 0)>>)
    [] o = "le" -> Tell(<<Bool(Cmp(T(a[1]), T(a[2])) <= 0)>>)
    [] o = "ge" -> Tell(<<Bool(Cmp(T(a[1]), T(a[2])) >= 0)>>)
    [] o = "hashCode" -> Tell(HashOf(T(a[1])))
    [] o = "stdHash" -> TellOne(IF T(a[1]) = T(a[2]) THEN {<<1>>} ELSE {<<0>>, <<1>>})     \* unequal strings may collide

(* e.s: for each string the characters read one by one, its length, isEmpty, and its conversion to std::string *)
Obs(e) == /\ res' = e.r /\ exc' = e.x /\ strs' = <<e.s[1][1], e.s[2][1]>>
          /\ \A s \in Slots : e.s[s][2] = Len(strs'[s]) /\ e.s[s][3] = Bool(strs'[s] = <<>>) /\ e.s[s][4] = strs'[s]
-----------------------------------------------------------------------------
C(o, a) == [o |-> o, a |-> a]
Idx(s) == -1..(N(s) + 1)
Legal(s) == 0..(N(s) - 1)
Texts == {<<>>, <<97>>, <<98>>, <<97, 97>>, <<98, 97>>, <<0>>, <<97, 98, 97>>}
Chars == {0, 97, 98, 225}
Edits(s) ==
    {C("set", <<s, t>>) : t \in Texts} \cup {C("plusAssign", <<s, t>>) : t \in {<<97>>, <<0>>, <<98, 97>>}} \cup {C("plusAssignChar", <<s, c>>) : c \in {65, 97, 98}} \cup
    {C(o, <<s, d>>) : o \in {"assign", "copy"}, d \in Slots} \cup {C("plusAssignOther", <<s, d>>) : d \in Slots} \cup {C("setAt", <<s, i, c>>) : i \in Legal(s), c \in {97, 98, 0}} \cup
    {C("plusAssignPointer", <<s, <<97>>>>)}
Queries14(s) ==
    {C(o, <<s, t>>) : o \in {"fromChars", "fromBytes", "copyValueOf", "fromCharArray", "fromStd"}, t \in {<<>>, <<98, 97>>, <<97, 0>>}} \cup
    {C(o, <<s, <<97, 98>>, f, n>>) : o \in {"fromCharsPart", "fromBytesPart", "copyValuePart"}, f \in -1..3, n \in -1..3} \cup
    {C("fromPointer", <<s, <<97, 0, 98>>, n>>) : n \in 0..3} \cup
    {C(o, <<s, d>>) : o \in {"clone", "toString", "valueOfString"}, d \in Slots} \cup
    {C(o, <<s, t>>) : o \in {"concat", "plus", "indexOf", "lastIndexOf", "contains", "startsWith", "endsWith", "split"}, t \in Texts} \cup
    {C("containsSeq", <<s, t>>) : t \in {x \in Texts : x # <<0>>}} \cup
    {C(o, <<s, i>>) : o \in {"charAt", "subStringFrom", "getStringFromIndex"}, i \in Idx(s)} \cup {C("at", <<s, i>>) : i \in Legal(s)} \cup
    {C(o, <<s>>) : o \in {"length", "getSize", "isEmpty", "trim", "toLowerCase", "toUpperCase", "toCharArray", "getBytes", "toStd"}} \cup
    {C(o, <<s, c>>) : o \in {"indexOfChar", "lastIndexOfChar"}, c \in Chars} \cup {C(o, <<s, c, i>>) : o \in {"indexOfCharFrom", "lastIndexOfCharFrom"}, c \in Chars, i \in Idx(s)} \cup
    {C(o, <<s, t, i>>) : o \in {"indexOfFrom", "lastIndexOfFrom", "startsWithFrom"}, t \in Texts, i \in Idx(s)} \cup
    {C("subString", <<s, f, e>>) : f \in Idx(s), e \in Idx(s)} \cup {C("replaceChar", <<s, c, d>>) : c \in {0, 97}, d \in {0, 98}} \cup
    {C(o, <<s, p, q>>) : o \in {"replace", "replaceAll", "replaceFirst"}, p \in Texts, q \in {<<>>, <<97>>, <<98, 97>>}} \cup
    {C("splitUpTo", <<s, t, n>>) : t \in {<<>>, <<97>>, <<98, 97>>}, n \in -1..4} \cup
    {C("join", <<s, ts>>) : ts \in {<<<<97>>>>, <<<<>>, <<98>>>>, <<<<97>>, <<>>, <<98>>>>}} \cup
    {C("getChars", <<s, b, e, n, d>>) : b \in {-1, 0, 1}, e \in Idx(s), n \in 0..2, d \in -1..1} \cup
    {C("regionMatches", <<s, g, i, <<97, 66>>, j, n>>) : g \in {0, 1}, i \in Idx(s), j \in -1..3, n \in -1..3}
Queries15(s) ==
    {C(o, <<s, d>>) : o \in {"equals", "eq", "ne", "contentEquals", "compareTo", "compareToIgnoreCase", "equalsIgnoreCase", "lt", "gt", "le", "ge", "stdHash"}, d \in Slots} \cup {C("hashCode", <<s>>)}
Misc == {C("valueOfChar", <<1, c>>) : c \in {0, 65, 255}} \cup {C("valueOfInt", <<1, n>>) : n \in {0, -1, 120}} \cup {C("valueOfBool", <<1, b>>) : b \in {0, 1}}
Calls == IF Part = 14 THEN UNION {Edits(s) \cup Queries14(s) : s \in {1}} \cup Misc ELSE UNION {Edits(s) \cup Queries15(s) : s \in Slots}
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == N(1) <= MaxLen /\ N(2) <= MaxLen2 /\ \A s \in Slots : \A k \in 1..N(s) : T(s)[k] \in Alpha
CharsKnown == \A s \in Slots : \A k \in 1..N(s) : T(s)[k] \in 0..255
OneAtATime == [][\A s \in Slots : strs'[s] # strs[s] => \A t \in Slots \ {s} : strs'[t] = strs[t]]_vars
(* the laws of C15, checked over every pair and triple of strings of the model *)
Small == UNION {[1..n -> Alpha] : n \in 0..MaxLen}
Laws == /\ \A t, u \in Small : Cmp(t, u) = -Cmp(u, t) /\ (Cmp(t, u) = 0 <=> t = u) /\ (Fold(t) = Fold(u) => Cmp(Fold(t), Fold(u)) = 0)
        /\ \A t, u, v \in Small : (Cmp(t, u) <= 0 /\ Cmp(u, v) <= 0) => Cmp(t, v) <= 0
        /\ \A t \in Small : \A p \in {<<97>>, <<98, 97>>, <<97, 97>>} : JoinText(Pieces(t, p), p) = t /\ Repl(t, p, p) = t /\ (FirstAt(t, p, 0) < 0 => Repl(t, p, <<>>) = t)
LawsHold == Laws
MCView == strs
=============================================================================

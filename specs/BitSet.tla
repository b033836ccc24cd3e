------------------------------- MODULE BitSet -------------------------------
(* Property C06: two BitSet variables as finite sets of naturals.  A set is  *)
(* written in scripts and recordings as its maximal runs <<from, to>>.       *)
EXTENDS Text, Bits
VARIABLES sets, res, exc
vars == <<sets, res, exc>>
Slots == {1, 2}
CONSTANTS Points, MaxLen2          \* model: indexes used as positions; how many elements slot 2 may hold

Init == sets = [s \in Slots |-> {}] /\ res = <<>> /\ exc = ""
New == sets' = [s \in Slots |-> {}] /\ res' = <<>> /\ exc' = ""
B(s) == sets[s]
Put(s, v) == sets' = [sets EXCEPT ![s] = v]
Ret(r) == res' = r /\ exc' = ""
Keep == UNCHANGED sets
Refuse == Keep /\ res' = <<>> /\ exc' = "index"
Range(f, t) == f..(t - 1)
RangeOK(f, t) == f >= 0 /\ t >= 0 /\ f <= t
SymDiff(X, Y) == (X \ Y) \cup (Y \ X)
OfRuns(rs) == UNION {Range(rs[k][1], rs[k][2]) : k \in 1..Len(rs)}
RECURSIVE RunsFrom(_, _)
RunsFrom(X, i) == LET Y == {x \in X : x >= i} IN
                  IF Y = {} THEN <<>>
                  ELSE LET f == MinOf(Y) t == MinOf({x \in (f + 1)..(MaxOf(Y) + 1) : x \notin X}) IN <<<<f, t>>>> \o RunsFrom(X, t)
Runs(X) == RunsFrom(X, 0)
Length(X) == IF X = {} THEN 0 ELSE MaxOf(X) + 1

SetBit(s, i) == IF i < 0 THEN Refuse ELSE Put(s, B(s) \cup {i}) /\ Ret(<<>>)
ClearBit(s, i) == IF i < 0 THEN Refuse ELSE Put(s, B(s) \ {i}) /\ Ret(<<>>)
FlipBit(s, i) == IF i < 0 THEN Refuse ELSE Put(s, SymDiff(B(s), {i})) /\ Ret(<<>>)
SetVal(s, i, v) == IF v = 1 THEN SetBit(s, i) ELSE ClearBit(s, i)
SetRange(s, f, t) == IF RangeOK(f, t) THEN Put(s, B(s) \cup Range(f, t)) /\ Ret(<<>>) ELSE Refuse
ClearRange(s, f, t) == IF RangeOK(f, t) THEN Put(s, B(s) \ Range(f, t)) /\ Ret(<<>>) ELSE Refuse
FlipRange(s, f, t) == IF RangeOK(f, t) THEN Put(s, SymDiff(B(s), Range(f, t))) /\ Ret(<<>>) ELSE Refuse
SetRangeVal(s, f, t, v) == IF v = 1 THEN SetRange(s, f, t) ELSE ClearRange(s, f, t)
ClearAll(s) == Put(s, {}) /\ Ret(<<>>)
And(s, d) == Put(s, B(s) \cap B(d)) /\ Ret(<<>>)
Or(s, d) == Put(s, B(s) \cup B(d)) /\ Ret(<<>>)
Xor(s, d) == Put(s, SymDiff(B(s), B(d))) /\ Ret(<<>>)
AndNot(s, d) == Put(s, B(s) \ B(d)) /\ Ret(<<>>)
Get(s, i) == IF i < 0 THEN Refuse ELSE Keep /\ Ret(<<Bool(i \in B(s))>>)
GetRange(s, f, t, d) == IF RangeOK(f, t) THEN Put(d, {x - f : x \in B(s) \cap Range(f, t)}) /\ Ret(<<>>) ELSE Refuse    \* d = s.get(f, t)
CardinalityOf(s) == Keep /\ Ret(<<Cardinality(B(s))>>)
LengthOf(s) == Keep /\ Ret(<<Length(B(s))>>)
IsEmpty(s) == Keep /\ Ret(<<Bool(B(s) = {})>>)
Intersects(s, d) == Keep /\ Ret(<<Bool(B(s) \cap B(d) # {})>>)
NextSet(s, i) == IF i < 0 THEN Refuse ELSE LET X == {x \in B(s) : x >= i} IN Keep /\ Ret(<<IF X = {} THEN -1 ELSE MinOf(X)>>)
NextClear(s, i) == IF i < 0 THEN Refuse ELSE Keep /\ Ret(<<MinOf({x \in i..Max2(i, Length(B(s))) : x \notin B(s)})>>)
PrevSet(s, i) == IF i < -1 THEN Refuse ELSE LET X == {x \in B(s) : x <= i} IN Keep /\ Ret(<<IF X = {} THEN -1 ELSE MaxOf(X)>>)
PrevClear(s, i) == IF i < -1 THEN Refuse
                   ELSE IF i > Length(B(s)) THEN Keep /\ Ret(<<i>>)
                   ELSE LET X == {x \in 0..i : x \notin B(s)} IN Keep /\ Ret(<<IF X = {} THEN -1 ELSE MaxOf(X)>>)
Equals(s, d) == Keep /\ Ret(<<Bool(B(s) = B(d))>>)
EqualsForeign(s) == Keep /\ Ret(<<0>>)
(* the documented hash: 1234 xor (word_i * (i+1)) over the words, its two halves combined *)
Word(X, w) == FromBits([i \in 0..63 |-> Bool(64 * w + i \in X)], 4)
RECURSIVE HashW(_, _, _)
HashW(X, w, h) == IF w < 0 THEN h ELSE HashW(X, w - 1, LXor(h, LMul(Word(X, w), LSmall(w + 1, 4))))
Hash(X) == LET h == HashW(X, (Length(X) - 1) \div 64, LSmall(1234, 4)) IN LXor(Low32(h), <<h[3], h[4]>>)
HashOf(s) == Keep /\ Ret(Hash(B(s)))
ToBytes(s) == Keep /\ Ret([k \in 1..((Length(B(s)) + 7) \div 8) |-> LET b(i) == Bool(8 * (k - 1) + i \in B(s)) IN
                b(0) + 2 * b(1) + 4 * b(2) + 8 * b(3) + 16 * b(4) + 32 * b(5) + 64 * b(6) + 128 * b(7)])
ToLongs(s) == Keep /\ Ret([k \in 1..((Length(B(s)) + 63) \div 64) |-> Word(B(s), k - 1)])
OfBytes(bs) == {x \in 0..(8 * Len(bs) - 1) : BitOf(bs[x \div 8 + 1], x % 8) = 1}
ValueOfBytes(s, bs) == Put(s, OfBytes(bs)) /\ Ret(<<>>)
OfLongs(ls) == {x \in 0..(64 * Len(ls) - 1) : LBit(ls[x \div 64 + 1], x % 64) = 1}
ValueOfLongs(s, ls) == Put(s, OfLongs(ls)) /\ Ret(<<>>)
RECURSIVE Asc(_)
Asc(X) == IF X = {} THEN <<>> ELSE <<MinOf(X)>> \o Asc(X \ {MinOf(X)})
ToText(s) == Keep /\ Ret(<<123>> \o JoinText([k \in 1..Cardinality(B(s)) |-> Dec(Asc(B(s))[k])], CommaSpace) \o <<125>>)
(* bits of space in use: a multiple of 64 that covers the set *)
SizeOf(s) == Keep /\ exc' = "" /\ \E k \in 0..64 : res' = <<64 * k>> /\ Length(B(s)) <= 64 * k
Copy(s, d) == Put(d, B(s)) /\ Ret(<<>>)
Sized(s, n) == IF n < 0 THEN Keep /\ res' = <<>> /\ exc' = "negsize" ELSE Put(s, {}) /\ Ret(<<>>)

Do(o, a) ==
  CASE o = "new" -> New
    [] o = "set" -> SetBit(a[1], a[2])
    [] o = "clearBit" -> ClearBit(a[1], a[2])
    [] o = "flip" -> FlipBit(a[1], a[2])
    [] o = "setVal" -> SetVal(a[1], a[2], a[3])
    [] o = "setRange" -> SetRange(a[1], a[2], a[3])
    [] o = "clearRange" -> ClearRange(a[1], a[2], a[3])
    [] o = "flipRange" -> FlipRange(a[1], a[2], a[3])
    [] o = "setRangeVal" -> SetRangeVal(a[1], a[2], a[3], a[4])
    [] o = "clear" -> ClearAll(a[1])
    [] o = "and" -> And(a[1], a[2])
    [] o = "or" -> Or(a[1], a[2])
    [] o = "xor" -> Xor(a[1], a[2])
    [] o = "andNot" -> AndNot(a[1], a[2])
    [] o = "get" -> Get(a[1], a[2])
    [] o = "getRange" -> GetRange(a[1], a[2], a[3], a[4])
    [] o = "cardinality" -> CardinalityOf(a[1])
    [] o = "length" -> LengthOf(a[1])
    [] o = "isEmpty" -> IsEmpty(a[1])
    [] o = "intersects" -> Intersects(a[1], a[2])
    [] o = "nextSetBit" -> NextSet(a[1], a[2])
    [] o = "nextClearBit" -> NextClear(a[1], a[2])
    [] o = "previousSetBit" -> PrevSet(a[1], a[2])
    [] o = "previousClearBit" -> PrevClear(a[1], a[2])
    [] o = "equals" -> Equals(a[1], a[2])
    [] o = "equalsForeign" -> EqualsForeign(a[1])
    [] o = "hashCode" -> HashOf(a[1])
    [] o = "toByteArray" -> ToBytes(a[1])
    [] o = "toLongArray" -> ToLongs(a[1])
    [] o = "valueOfBytes" -> ValueOfBytes(a[1], a[2])
    [] o = "valueOfLongs" -> ValueOfLongs(a[1], a[2])
    [] o = "toString" -> ToText(a[1])
    [] o = "size" -> SizeOf(a[1])
    [] o \in {"copy", "assign", "clone"} -> Copy(a[1], a[2])
    [] o = "sized" -> Sized(a[1], a[2])

(* e.s: the runs of each set read with get(i), then length, cardinality, isEmpty of each *)
Obs(e) == /\ res' = e.r /\ exc' = e.x /\ sets' = <<OfRuns(e.s[1]), OfRuns(e.s[2])>>
          /\ \A s \in Slots : e.s[s + 2] = <<Length(sets'[s]), Cardinality(sets'[s]), Bool(sets'[s] = {})>>

-----------------------------------------------------------------------------
C(o, a) == [o |-> o, a |-> a]
Ends == Points \cup {-1}
Calls ==
  UNION {
    {C(o, <<s, i>>) : o \in {"set", "clearBit", "flip", "get", "nextSetBit", "nextClearBit", "previousSetBit", "previousClearBit"}, i \in Ends \cup {-2}} \cup
    {C("setVal", <<s, i, v>>) : i \in Ends, v \in {0, 1}} \cup
    {C(o, <<s, f, t>>) : o \in {"setRange", "clearRange", "flipRange"}, f \in Ends, t \in Ends} \cup
    {C("setRangeVal", <<s, f, t, v>>) : f \in Points, t \in Points, v \in {0, 1}} \cup
    {C("getRange", <<s, f, t, d>>) : f \in Points, t \in Points, d \in Slots} \cup
    {C(o, <<s>>) : o \in {"clear", "cardinality", "length", "isEmpty", "equalsForeign", "hashCode", "toByteArray", "toLongArray", "toString", "size"}} \cup
    {C(o, <<s, d>>) : o \in {"and", "or", "xor", "andNot", "intersects", "equals", "copy", "assign", "clone"}, d \in Slots} \cup
    {C("sized", <<s, n>>) : n \in {-1, 0, 64, 65}}
    : s \in Slots }
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
MCView == sets
Bound == (\A x \in B(1) : x <= MaxOf(Points)) /\ Cardinality(B(2)) <= MaxLen2
TypeOK == \A s \in Slots : B(s) \subseteq Nat
RunsRoundTrip == \A s \in Slots : OfRuns(Runs(B(s))) = B(s)
RefusedKeeps == [][exc' # "" => UNCHANGED sets]_vars
OneAtATime == [][\A s \in Slots : sets'[s] # sets[s] => \A t \in Slots \ {s} : sets'[t] = sets[t]]_vars
=============================================================================

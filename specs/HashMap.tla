------------------------------ MODULE HashMap -------------------------------
(* Property C04: two HashMap variables as finite functions.  Absent values   *)
(* are reported as the default value, written 0.                            *)
EXTENDS Text
VARIABLES maps,      \* [1..2 -> finite function Int -> Int]
          kind,      \* 0 <Integer,Integer>, 1 <String,String>, 2 <String,Integer>
          res, exc
vars == <<maps, kind, res, exc>>
Slots == {1, 2}
CONSTANTS Keys, Vals, MaxLen, MaxLen2
Empty == [k \in {} |-> 0]

Init == maps = [s \in Slots |-> Empty] /\ kind = 0 /\ res = <<>> /\ exc = ""
New(k) == maps' = [s \in Slots |-> Empty] /\ kind' = k /\ res' = <<>> /\ exc' = ""
M(s) == maps[s]
Dom(s) == DOMAIN maps[s]
Put(s, f) == maps' = [maps EXCEPT ![s] = f] /\ UNCHANGED kind
Ret(r) == res' = r /\ exc' = ""
Keep == UNCHANGED <<maps, kind>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Val(s, k) == IF k \in Dom(s) THEN M(s)[k] ELSE 0
RECURSIVE Keyed(_)          \* pairs in ascending key order
Keyed(f) == IF DOMAIN f = {} THEN <<>> ELSE LET k == MinOf(DOMAIN f) IN <<<<k, f[k]>>>> \o Keyed(Without(f, k))
RECURSIVE OfPairs(_)
OfPairs(ps) == IF ps = <<>> THEN Empty ELSE LET r == OfPairs(SubSeq(ps, 1, Len(ps) - 1)) IN With(r, ps[Len(ps)][1], ps[Len(ps)][2])

PutKV(s, k, v) == Put(s, With(M(s), k, v)) /\ Ret(<<>>)
PutIfAbsent(s, k, v) == IF k \in Dom(s) THEN Keep /\ Ret(<<M(s)[k]>>) ELSE Put(s, With(M(s), k, v)) /\ Ret(<<0>>)
PutAll(s, d) == Put(d, Over(M(d), M(s))) /\ Ret(<<>>)             \* d.putAll(s)
Get(s, k) == Keep /\ Ret(<<Val(s, k)>>)
GetOrDefault(s, k, v) == Keep /\ Ret(<<IF k \in Dom(s) THEN M(s)[k] ELSE v>>)
ContainsKey(s, k) == Keep /\ Ret(<<Bool(k \in Dom(s))>>)
ContainsValue(s, v) == Keep /\ Ret(<<Bool(\E k \in Dom(s) : M(s)[k] = v)>>)
Remove(s, k) == IF k \in Dom(s) THEN Put(s, Without(M(s), k)) /\ Ret(<<M(s)[k]>>) ELSE Keep /\ Ret(<<0>>)
RemoveKV(s, k, v) == IF k \in Dom(s) /\ M(s)[k] = v THEN Put(s, Without(M(s), k)) /\ Ret(<<1>>) ELSE Keep /\ Ret(<<0>>)
Replace(s, k, v) == IF k \in Dom(s) THEN Put(s, With(M(s), k, v)) /\ Ret(<<M(s)[k]>>) ELSE Keep /\ Ret(<<0>>)
ReplaceKV(s, k, v, w) == IF k \in Dom(s) /\ M(s)[k] = v THEN Put(s, With(M(s), k, w)) /\ Ret(<<1>>) ELSE Keep /\ Ret(<<0>>)
Size(s) == Keep /\ Ret(<<Cardinality(Dom(s))>>)
IsEmpty(s) == Keep /\ Ret(<<Bool(Dom(s) = {})>>)
Clear(s) == Put(s, Empty) /\ Ret(<<>>)
Equals(s, d) == Keep /\ Ret(<<Bool(M(s) = M(d))>>)
Entries(s) == Keep /\ Ret(Keyed(M(s)))                           \* recorded in ascending key order (the order is unspecified)
ForEach(s, n) == Keep /\ exc' = "" /\ \E D \in SUBSET Dom(s) :      \* the callback answers false at its n-th call
                    Cardinality(D) = Min2(Max2(n, 1), Cardinality(Dom(s))) /\ res' = Keyed([k \in D |-> M(s)[k]])
(* JSON-like text: the entries in some order; a number's text is its decimal form, 0 as a string is empty *)
Txt(x) == IF x = 0 /\ kind # 0 THEN <<>> ELSE Dec(x)
KeyText(k) == IF kind = 0 THEN Dec(k) ELSE Quote \o Txt(k) \o Quote
ValText(v) == IF kind = 1 THEN Quote \o Txt(v) \o Quote ELSE Dec(v)
EntryText(s, k) == KeyText(k) \o <<58, 32>> \o ValText(M(s)[k])
Orders(D) == {f \in [1..Cardinality(D) -> D] : \A i, j \in 1..Cardinality(D) : i # j => f[i] # f[j]}
ToText(s) == Keep /\ exc' = "" /\ \E f \in Orders(Dom(s)) :
               res' = <<123>> \o JoinText([i \in 1..Cardinality(Dom(s)) |-> EntryText(s, f[i])], CommaSpace) \o <<125>>
Copy(s, d) == Put(d, M(s)) /\ Ret(<<>>)
FromInit(s, ps) == Put(s, OfPairs(ps)) /\ Ret(<<>>)

Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o = "put" -> PutKV(a[1], a[2], a[3])
    [] o = "putIfAbsent" -> PutIfAbsent(a[1], a[2], a[3])
    [] o = "putAll" -> PutAll(a[1], a[2])
    [] o = "get" -> Get(a[1], a[2])
    [] o = "getOrDefault" -> GetOrDefault(a[1], a[2], a[3])
    [] o = "containsKey" -> ContainsKey(a[1], a[2])
    [] o = "containsValue" -> ContainsValue(a[1], a[2])
    [] o = "remove" -> Remove(a[1], a[2])
    [] o = "removeKV" -> RemoveKV(a[1], a[2], a[3])
    [] o = "replace" -> Replace(a[1], a[2], a[3])
    [] o = "replaceKV" -> ReplaceKV(a[1], a[2], a[3], a[4])
    [] o = "size" -> Size(a[1])
    [] o = "isEmpty" -> IsEmpty(a[1])
    [] o \in {"clear", "reinitialize"} -> Clear(a[1])
    [] o = "equals" -> Equals(a[1], a[2])
    [] o \in {"iterate", "entrySet"} -> Entries(a[1])
    [] o = "forEach" -> ForEach(a[1], a[2])
    [] o = "toString" -> ToText(a[1])
    [] o \in {"copy", "assign", "clone"} -> Copy(a[1], a[2])
    [] o = "fromInit" -> FromInit(a[1], a[2])

(* e.s: per slot the pairs met by iteration (sorted by key, so a repeated key would show), then the sizes *)
Obs(e) == /\ res' = e.r /\ exc' = e.x
          /\ maps' = [s \in Slots |-> OfPairs(e.s[s])]
          /\ \A s \in Slots : e.s[s] = Keyed(maps'[s]) /\ e.s[3][s] = Len(e.s[s])

-----------------------------------------------------------------------------
C(o, a) == [o |-> o, a |-> a]
Calls ==
  UNION {
    {C(o, <<s, k, v>>) : o \in {"put", "putIfAbsent", "getOrDefault", "removeKV", "replace"}, k \in Keys, v \in Vals} \cup
    {C("replaceKV", <<s, k, v, w>>) : k \in Keys, v \in Vals, w \in Vals} \cup
    {C(o, <<s, k>>) : o \in {"get", "containsKey", "remove"}, k \in Keys} \cup {C("containsValue", <<s, v>>) : v \in Vals} \cup
    {C(o, <<s>>) : o \in {"size", "isEmpty", "clear", "reinitialize", "iterate", "entrySet", "toString"}} \cup
    {C("forEach", <<s, n>>) : n \in 1..(Cardinality(Dom(s)) + 1)} \cup
    {C(o, <<s, d>>) : o \in {"putAll", "equals", "copy", "assign", "clone"}, d \in Slots} \cup
    {C("fromInit", <<s, ps>>) : ps \in {<<>>, <<<<1, 1>>>>, <<<<1, 1>>, <<1, 0>>>>, <<<<1, 0>>, <<2, 1>>>>}}
    : s \in Slots }
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == Cardinality(Dom(1)) <= MaxLen /\ Cardinality(Dom(2)) <= MaxLen2
TypeOK == \A s \in Slots : Dom(s) \subseteq Keys /\ \A k \in Dom(s) : M(s)[k] \in Vals
(* only the map named by the call changes, and only by the keys it names *)
OneAtATime == [][\A s \in Slots : maps'[s] # maps[s] => \A t \in Slots \ {s} : maps'[t] = maps[t]]_vars
=============================================================================

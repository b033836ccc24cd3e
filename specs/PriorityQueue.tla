--------------------------- MODULE PriorityQueue ----------------------------
(* Property C05: two PriorityQueue variables as multisets of integers, kept  *)
(* as descending sequences: the head is an element of highest priority.     *)
EXTENDS Text
VARIABLES qs, kind, res, exc
vars == <<qs, kind, res, exc>>
Slots == {1, 2}
CONSTANTS Elems, MaxLen, MaxLen2

Init == qs = [s \in Slots |-> <<>>] /\ kind = 0 /\ res = <<>> /\ exc = ""
New(k) == qs' = [s \in Slots |-> <<>>] /\ kind' = k /\ res' = <<>> /\ exc' = ""
Q(s) == qs[s]
N(s) == Len(qs[s])
Put(s, v) == qs' = [qs EXCEPT ![s] = v] /\ UNCHANGED kind
Ret(r) == res' = r /\ exc' = ""
Keep == UNCHANGED <<qs, kind>>
Insert(q, e) == LET p == Cardinality({k \in 1..Len(q) : q[k] >= e}) IN Sub(q, 0, p) \o <<e>> \o Sub(q, p, Len(q))
RECURSIVE Sorted(_)
Sorted(es) == IF es = <<>> THEN <<>> ELSE Insert(Sorted(Tail(es)), Head(es))
Count(q, e) == Cardinality({k \in 1..Len(q) : q[k] = e})

Add(s, e) == Put(s, Insert(Q(s), e)) /\ Ret(<<1>>)
Peek(s) == Keep /\ Ret(<<IF Q(s) = <<>> THEN 0 ELSE Q(s)[1]>>)            \* the default value stands for null
Poll(s) == IF Q(s) = <<>> THEN Keep /\ Ret(<<0>>) ELSE Put(s, Tail(Q(s))) /\ Ret(<<Q(s)[1]>>)
Remove(s, e) == LET p == IndexOfVal(Q(s), e, 0) IN IF p < 0 THEN Keep /\ Ret(<<0>>) ELSE Put(s, RemoveIdx(Q(s), p)) /\ Ret(<<1>>)
Contains(s, e) == Keep /\ Ret(<<Bool(Count(Q(s), e) > 0)>>)
Size(s) == Keep /\ Ret(<<N(s)>>)
Clear(s) == Put(s, <<>>) /\ Ret(<<>>)
(* any order, with the head first: the driver reports the array; its elements are the queue's *)
ToArray(s) == Keep /\ exc' = "" /\ res' = Q(s)                              \* recorded sorted (the order is unspecified)
(* toArray(given array of n elements 77): filled and default-terminated when it is large enough *)
ToArrayInto(s, n) == Keep /\ exc' = "" /\ res' = (IF n < N(s) THEN Q(s) ELSE Q(s) \o [k \in 1..(n - N(s)) |-> IF k = 1 THEN 0 ELSE 77])
Drain(s) == Put(s, <<>>) /\ Ret(Q(s))                                       \* poll until empty
Copy(s, d) == Put(d, Q(s)) /\ Ret(<<>>)
FromInit(s, es) == Put(s, Sorted(es)) /\ Ret(<<>>)
Sized(s, n) == IF n >= 1 THEN Put(s, <<>>) /\ Ret(<<>>) ELSE Keep /\ res' = <<>> /\ exc' = "interrupted"

Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o \in {"add", "offer"} -> Add(a[1], a[2])
    [] o = "peek" -> Peek(a[1])
    [] o = "poll" -> Poll(a[1])
    [] o = "remove" -> Remove(a[1], a[2])
    [] o = "contains" -> Contains(a[1], a[2])
    [] o = "size" -> Size(a[1])
    [] o = "clear" -> Clear(a[1])
    [] o = "toArray" -> ToArray(a[1])
    [] o = "toArrayInto" -> ToArrayInto(a[1], a[2])
    [] o = "drain" -> Drain(a[1])
    [] o \in {"copy", "assign"} -> Copy(a[1], a[2])
    [] o = "fromInit" -> FromInit(a[1], a[2])
    [] o = "sized" -> Sized(a[1], a[2])

Obs(e) == res' = e.r /\ exc' = e.x /\ qs' = e.s          \* e.s: drained from copies, so in the order poll gives

-----------------------------------------------------------------------------
C(o, a) == [o |-> o, a |-> a]
Lists == {<<>>, <<1>>, <<1, 2>>, <<2, 1, 3>>}
Calls ==
  UNION {
    {C(o, <<s, e>>) : o \in {"add", "offer", "remove", "contains"}, e \in Elems} \cup
    {C(o, <<s>>) : o \in {"peek", "poll", "size", "clear", "toArray", "drain"}} \cup
    {C("toArrayInto", <<s, n>>) : n \in 0..(N(s) + 2)} \cup
    {C(o, <<s, d>>) : o \in {"copy", "assign"}, d \in Slots} \cup
    {C("fromInit", <<s, es>>) : es \in Lists} \cup {C("sized", <<s, n>>) : n \in {-1, 0, 1, 5}}
    : s \in Slots }
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == N(1) <= MaxLen /\ N(2) <= MaxLen2
Descending == \A s \in Slots : \A k \in 1..(N(s) - 1) : Q(s)[k] >= Q(s)[k + 1]
(* a poll takes out one occurrence of a greatest element and nothing else *)
OneAtATime == [][\A s \in Slots : qs'[s] # qs[s] => \A t \in Slots \ {s} : qs'[t] = qs[t]]_vars
=============================================================================

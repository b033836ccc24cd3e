----------------------------- MODULE LinkedList -----------------------------
(* Property C03: two LinkedList variables as integer sequences.             *)
EXTENDS Text
VARIABLES lists, kind, res, exc
vars == <<lists, kind, res, exc>>
Slots == {1, 2}
CONSTANTS Elems, MaxLen, MaxLen2

Init == lists = [s \in Slots |-> <<>>] /\ kind = 0 /\ res = <<>> /\ exc = ""
New(k) == lists' = [s \in Slots |-> <<>>] /\ kind' = k /\ res' = <<>> /\ exc' = ""

L(s) == lists[s]
N(s) == Len(lists[s])
Put(s, v) == lists' = [lists EXCEPT ![s] = v] /\ UNCHANGED kind
Ret(r) == res' = r /\ exc' = ""
Keep == UNCHANGED <<lists, kind>>
RefuseIndex == Keep /\ res' = <<>> /\ exc' = "index"
RefuseEmpty == Keep /\ res' = <<>> /\ exc' = "nosuch"
InR(s, i) == i >= 0 /\ i < N(s)

PushBack(s, e, r) == Put(s, Append(L(s), e)) /\ Ret(r)            \* add, offer, offerLast: true; addLast: nothing
PushFront(s, e, r) == Put(s, <<e>> \o L(s)) /\ Ret(r)             \* offerFirst: true; addFirst, push: nothing
PeekFront(s) == IF L(s) = <<>> THEN RefuseEmpty ELSE Keep /\ Ret(<<L(s)[1]>>)
PeekBack(s) == IF L(s) = <<>> THEN RefuseEmpty ELSE Keep /\ Ret(<<L(s)[N(s)]>>)
PollFront(s) == IF L(s) = <<>> THEN RefuseEmpty ELSE Put(s, Tail(L(s))) /\ Ret(<<L(s)[1]>>)
PollBack(s) == IF L(s) = <<>> THEN RefuseEmpty ELSE Put(s, Sub(L(s), 0, N(s) - 1)) /\ Ret(<<L(s)[N(s)]>>)
Get(s, i) == IF InR(s, i) THEN Keep /\ Ret(<<L(s)[i + 1]>>) ELSE RefuseIndex
Set(s, i, e) == IF InR(s, i) THEN Put(s, [L(s) EXCEPT ![i + 1] = e]) /\ Ret(<<L(s)[i + 1]>>) ELSE RefuseIndex
RemoveAt(s, i) == IF InR(s, i) THEN Put(s, RemoveIdx(L(s), i)) /\ Ret(<<1>>) ELSE RefuseIndex
RemoveNode(s, i) == InR(s, i) /\ Put(s, RemoveIdx(L(s), i)) /\ Ret(<<1>>)     \* the node met at position i of an iteration
RemoveForeign(s, d) == Keep /\ Ret(<<0>>)                                     \* a node that is not in the list (a node of d, or a fresh one)
WriteNode(s, i, e) == InR(s, i) /\ Put(s, [L(s) EXCEPT ![i + 1] = e]) /\ Ret(<<>>)   \* node->element = e in an iteration
Clear(s) == Put(s, <<>>) /\ Ret(<<>>)
Size(s) == Keep /\ Ret(<<N(s)>>)
Iterate(s) == Keep /\ Ret(L(s))
ForEach(s, n) == Keep /\ Ret(Sub(L(s), 0, Min2(Max2(n, 1), N(s))))
(* forEach whose callback removes from the list every node holding e *)
ForEachRemove(s, e) == Put(s, SelectSeq(L(s), LAMBDA x : x # e)) /\ Ret(L(s))
ForEachWrite(s, e) == Put(s, [k \in 1..N(s) |-> e]) /\ Ret(<<>>)
Copy(s, d) == Put(d, L(s)) /\ Ret(<<>>)
FromInit(s, es) == Put(s, es) /\ Ret(<<>>)

Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o \in {"add", "offer", "offerLast"} -> PushBack(a[1], a[2], <<1>>)
    [] o = "addLast" -> PushBack(a[1], a[2], <<>>)
    [] o = "offerFirst" -> PushFront(a[1], a[2], <<1>>)
    [] o \in {"addFirst", "push"} -> PushFront(a[1], a[2], <<>>)
    [] o \in {"peek", "peekFirst", "getFirst", "element"} -> PeekFront(a[1])
    [] o \in {"peekLast", "getLast"} -> PeekBack(a[1])
    [] o \in {"poll", "pollFirst", "pop", "remove"} -> PollFront(a[1])
    [] o \in {"pollLast", "removeLast"} -> PollBack(a[1])
    [] o = "get" -> Get(a[1], a[2])
    [] o = "set" -> Set(a[1], a[2], a[3])
    [] o = "removeAt" -> RemoveAt(a[1], a[2])
    [] o = "removeNode" -> RemoveNode(a[1], a[2])
    [] o = "removeForeign" -> RemoveForeign(a[1], a[2])
    [] o = "writeNode" -> WriteNode(a[1], a[2], a[3])
    [] o = "clear" -> Clear(a[1])
    [] o = "size" -> Size(a[1])
    [] o = "iterate" -> Iterate(a[1])
    [] o = "forEach" -> ForEach(a[1], a[2])
    [] o = "forEachRemove" -> ForEachRemove(a[1], a[2])
    [] o = "forEachWrite" -> ForEachWrite(a[1], a[2])
    [] o \in {"copy", "assign"} -> Copy(a[1], a[2])
    [] o = "fromInit" -> FromInit(a[1], a[2])

Obs(e) == res' = e.r /\ exc' = e.x /\ lists' = e.s

-----------------------------------------------------------------------------
Idx(s) == -1..(N(s) + 1)
C(o, a) == [o |-> o, a |-> a]
Calls ==
  UNION {
    {C(o, <<s, e>>) : o \in {"add", "offer", "offerLast", "addLast", "offerFirst", "addFirst", "push", "forEachRemove", "forEachWrite"}, e \in Elems} \cup
    {C(o, <<s>>) : o \in {"peek", "peekFirst", "getFirst", "element", "peekLast", "getLast", "poll", "pollFirst", "pop", "remove", "pollLast",
                          "removeLast", "clear", "size", "iterate"}} \cup
    {C(o, <<s, i>>) : o \in {"get", "removeAt"}, i \in Idx(s)} \cup
    {C("set", <<s, i, e>>) : i \in Idx(s), e \in Elems} \cup
    {C("removeNode", <<s, i>>) : i \in 0..(N(s) - 1)} \cup {C("writeNode", <<s, i, e>>) : i \in 0..(N(s) - 1), e \in Elems} \cup
    {C("forEach", <<s, n>>) : n \in 1..(N(s) + 1)} \cup
    {C(o, <<s, d>>) : o \in {"copy", "assign"}, d \in Slots} \cup {C("removeForeign", <<s, 3 - s>>)} \cup
    {C("fromInit", <<s, es>>) : es \in {<<>>, <<1>>, <<1, 2>>}}
    : s \in Slots }
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == N(1) <= MaxLen /\ N(2) <= MaxLen2
TypeOK == \A s \in Slots : lists[s] \in Seq(Elems \cup {1, 2})
RefusedKeeps == [][exc' # "" => UNCHANGED lists]_vars
OneAtATime == [][\A s \in Slots : lists'[s] # lists[s] => \A t \in Slots \ {s} : lists'[t] = lists[t]]_vars
=============================================================================

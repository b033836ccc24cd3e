------------------------------- MODULE Vector -------------------------------
(* Property C02: two Vector (or Stack) variables as integer sequences with a *)
(* capacity and a capacity increment.                                        *)
EXTENDS Text
VARIABLES vecs,      \* [1..2 -> Seq(Int)]
          cap, inc,  \* capacity; capacity increment (-1: not known to the caller)
          kind,      \* 0 Vector<Integer>, 1 Vector<String>, 2 Stack<Integer>, 3 Stack<String>
          res, exc
vars == <<vecs, cap, inc, kind, res, exc>>
Slots == {1, 2}
CONSTANTS Elems, MaxLen, MaxLen2, Cap0, Slack    \* Cap0: default capacity; Slack: how much spare capacity a copy may choose to have
Stackish == kind >= 2

Init == vecs = [s \in Slots |-> <<>>] /\ cap = [s \in Slots |-> Cap0] /\ inc = [s \in Slots |-> 0] /\ kind = 0 /\ res = <<>> /\ exc = ""
New(k) == vecs' = [s \in Slots |-> <<>>] /\ cap' = [s \in Slots |-> Cap0] /\ inc' = [s \in Slots |-> 0] /\ kind' = k /\ res' = <<>> /\ exc' = ""

Ret(r) == res' = r /\ exc' = ""
Keep == UNCHANGED <<vecs, cap, inc, kind>>
Refuse == Keep /\ res' = <<>> /\ exc' = "illegal"
RefuseEmpty == Keep /\ res' = <<>> /\ exc' = "other"
V(s) == vecs[s]
N(s) == Len(vecs[s])
InR(s, i) == i >= 0 /\ i < N(s)
(* capacities the growth rule allows when room for need elements is requested of capacity c *)
Grown(c, k, need) == Max2(need, IF k > 0 THEN c + k ELSE 2 * c)
Grow(s, need) == IF need <= cap[s] THEN cap' = cap
                 ELSE IF inc[s] >= 0 THEN cap' = [cap EXCEPT ![s] = Grown(cap[s], inc[s], need)]
                 ELSE \E c \in need..(need + Slack) : cap' = [cap EXCEPT ![s] = c]
PutGrow(s, v) == vecs' = [vecs EXCEPT ![s] = v] /\ Grow(s, Len(v)) /\ UNCHANGED <<inc, kind>>
PutShrink(s, v) == vecs' = [vecs EXCEPT ![s] = v] /\ UNCHANGED <<cap, inc, kind>>
(* growth one element at a time: what a loop of add() gives *)
RECURSIVE GrowBy(_, _, _, _)
GrowBy(c, k, n, more) == IF more = 0 THEN c ELSE GrowBy(IF n + 1 > c THEN Grown(c, k, n + 1) ELSE c, k, n + 1, more - 1)
PutAll(s, v) == /\ vecs' = [vecs EXCEPT ![s] = v] /\ UNCHANGED <<inc, kind>>
                /\ \E c \in Len(v)..Max2(2 * Len(v) + inc[s] + 1, cap[s]) : cap' = [cap EXCEPT ![s] = c]

Add(s, e)   == PutGrow(s, Append(V(s), e)) /\ Ret(<<1>>)
AddElement(s, e) == PutGrow(s, Append(V(s), e)) /\ Ret(<<>>)
AddAt(s, i, e) == IF i >= 0 /\ i <= N(s) THEN PutGrow(s, InsertIdx(V(s), i, <<e>>)) /\ Ret(<<>>) ELSE Refuse
AddAll(s, es) == PutAll(s, V(s) \o es) /\ Ret(<<Bool(es # <<>>)>>)
AddAllAt(s, i, es) == IF i >= 0 /\ i <= N(s) THEN PutAll(s, InsertIdx(V(s), i, es)) /\ Ret(<<Bool(es # <<>>)>>)
                      ELSE es # <<>> /\ Refuse
Set(s, i, e) == IF InR(s, i) THEN PutShrink(s, [V(s) EXCEPT ![i + 1] = e]) /\ Ret(<<V(s)[i + 1]>>) ELSE Refuse
SetElementAt(s, i, e) == IF InR(s, i) THEN PutShrink(s, [V(s) EXCEPT ![i + 1] = e]) /\ Ret(<<>>) ELSE Refuse
SetOp(s, i, e) == SetElementAt(s, i, e)
Get(s, i)   == IF InR(s, i) THEN Keep /\ Ret(<<V(s)[i + 1]>>) ELSE Refuse
First(s)    == IF V(s) = <<>> THEN RefuseEmpty ELSE Keep /\ Ret(<<V(s)[1]>>)
Last(s)     == IF V(s) = <<>> THEN RefuseEmpty ELSE Keep /\ Ret(<<V(s)[N(s)]>>)
RemoveAt(s, i) == IF InR(s, i) THEN PutShrink(s, RemoveIdx(V(s), i)) /\ Ret(<<V(s)[i + 1]>>) ELSE Refuse
RemoveElementAt(s, i) == IF InR(s, i) THEN PutShrink(s, RemoveIdx(V(s), i)) /\ Ret(<<>>) ELSE Refuse
RemoveElem(s, e) == LET p == IndexOfVal(V(s), e, 0) IN IF p < 0 THEN Keep /\ Ret(<<0>>) ELSE PutShrink(s, RemoveIdx(V(s), p)) /\ Ret(<<1>>)
RemoveForeign(s) == Keep /\ Ret(<<0>>)
Filter(v, P(_)) == SelectSeq(v, P)
InSeq(e, es) == \E k \in 1..Len(es) : es[k] = e
RemoveAll(s, es) == LET r == Filter(V(s), LAMBDA e : ~InSeq(e, es)) IN PutShrink(s, r) /\ Ret(<<Bool(Len(r) # N(s))>>)
RetainAll(s, es) == LET r == Filter(V(s), LAMBDA e : InSeq(e, es)) IN PutShrink(s, r) /\ Ret(<<Bool(Len(r) # N(s))>>)
(* removeRange removes [from, to); with from = to it removes that one element, as the tests pin *)
RemoveRange(s, f, t) == IF InR(s, f) /\ f <= t /\ t <= N(s)
                        THEN PutShrink(s, Sub(V(s), 0, f) \o Sub(V(s), IF f = t THEN t + 1 ELSE t, N(s))) /\ Ret(<<>>)
                        ELSE Refuse
Clear(s)    == PutShrink(s, <<>>) /\ Ret(<<>>)
SetSize(s, n) == IF n < 0 THEN Refuse
                 ELSE IF n <= N(s) THEN PutShrink(s, Sub(V(s), 0, n)) /\ Ret(<<>>)
                 ELSE PutGrow(s, V(s) \o [k \in 1..(n - N(s)) |-> 0]) /\ Ret(<<>>)
EnsureCapacity(s, n) == UNCHANGED vecs /\ (IF n > 0 THEN Grow(s, n) ELSE cap' = cap) /\ UNCHANGED <<inc, kind>> /\ Ret(<<>>)
TrimToSize(s) == UNCHANGED <<vecs, inc, kind>> /\ cap' = [cap EXCEPT ![s] = N(s)] /\ Ret(<<>>)
Capacity(s) == Keep /\ Ret(<<cap[s]>>)
Contains(s, e) == Keep /\ Ret(<<Bool(InSeq(e, V(s)))>>)
ContainsAll(s, es) == Keep /\ Ret(<<Bool(\A k \in 1..Len(es) : InSeq(es[k], V(s)))>>)
IndexOf(s, e) == Keep /\ Ret(<<IndexOfVal(V(s), e, 0)>>)
IndexOfFrom(s, e, i) == IF InR(s, i) THEN Keep /\ Ret(<<IndexOfVal(V(s), e, i)>>) ELSE Refuse
LastIndexOf(s, e) == Keep /\ Ret(<<LastIndexOfVal(V(s), e, N(s) - 1)>>)
LastIndexOfFrom(s, e, i) == IF InR(s, i) THEN Keep /\ Ret(<<LastIndexOfVal(V(s), e, i)>>) ELSE Refuse
Size(s)     == Keep /\ Ret(<<N(s)>>)
IsEmpty(s)  == Keep /\ Ret(<<Bool(V(s) = <<>>)>>)
ToArray(s)  == Keep /\ Ret(V(s))
CopyInto(s, es) == Keep /\ Ret(es \o V(s))              \* appended to the caller's Array
Iterate(s)  == Keep /\ Ret(V(s))
Equals(s, d) == Keep /\ Ret(<<Bool(V(s) = V(d))>>)

(* copies: any capacity that holds the elements *)
Copied(s, d, k) == /\ vecs' = [vecs EXCEPT ![d] = V(s)]
                   /\ \E c \in N(s)..(2 * N(s) + Cap0 + Slack + (IF Slack > 1 THEN cap[s] + 2 * cap[d] ELSE 0)) : cap' = [cap EXCEPT ![d] = c]
                   /\ inc' = [inc EXCEPT ![d] = k] /\ UNCHANGED kind /\ Ret(<<>>)
Clone(s, d)  == Copied(s, d, -1)
Copy(s, d)   == Copied(s, d, inc[s])
Assign(s, d) == Copied(s, d, IF s = d THEN inc[d] ELSE -1)
FromInit(s, es) == /\ vecs' = [vecs EXCEPT ![s] = es] /\ cap' = [cap EXCEPT ![s] = Len(es)] /\ inc' = [inc EXCEPT ![s] = 0]
                   /\ UNCHANGED kind /\ Ret(<<>>)
AssignInit(s, es) == /\ vecs' = [vecs EXCEPT ![s] = es] /\ UNCHANGED <<inc, kind>> /\ Ret(<<>>)
                     /\ (IF Len(es) <= cap[s] THEN cap' = cap ELSE \E c \in Len(es)..Max2(Len(es), 2 * cap[s] + Max2(inc[s], 0)) : cap' = [cap EXCEPT ![s] = c])
Sized(s, c, k) == IF c < 0 THEN Keep /\ res' = <<>> /\ exc' = "illegal"
                  ELSE vecs' = [vecs EXCEPT ![s] = <<>>] /\ cap' = [cap EXCEPT ![s] = c] /\ inc' = [inc EXCEPT ![s] = Max2(k, 0)]
                       /\ UNCHANGED kind /\ Ret(<<>>)

(* Stack *)
Push(s, e)  == Stackish /\ PutGrow(s, Append(V(s), e)) /\ Ret(<<e>>)
RefuseStack == Keep /\ res' = <<>> /\ exc' = "emptystack"
Pop(s)      == Stackish /\ IF V(s) = <<>> THEN RefuseStack ELSE PutShrink(s, Sub(V(s), 0, N(s) - 1)) /\ Ret(<<V(s)[N(s)]>>)
Peek(s)     == Stackish /\ IF V(s) = <<>> THEN RefuseStack ELSE Keep /\ Ret(<<V(s)[N(s)]>>)
Search(s, e) == Stackish /\ LastIndexOf(s, e)
EmptyQ(s)   == Stackish /\ IsEmpty(s)

Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o = "add" -> Add(a[1], a[2])
    [] o = "addElement" -> AddElement(a[1], a[2])
    [] o = "addAt" -> AddAt(a[1], a[2], a[3])
    [] o = "insertElementAt" -> AddAt(a[1], a[2], a[3])
    [] o = "addAll" -> AddAll(a[1], a[2])
    [] o = "addAllAt" -> AddAllAt(a[1], a[2], a[3])
    [] o = "set" -> Set(a[1], a[2], a[3])
    [] o = "setElementAt" -> SetElementAt(a[1], a[2], a[3])
    [] o = "setOp" -> SetOp(a[1], a[2], a[3])
    [] o \in {"get", "elementAt", "getOp"} -> Get(a[1], a[2])
    [] o = "firstElement" -> First(a[1])
    [] o = "lastElement" -> Last(a[1])
    [] o = "removeAt" -> RemoveAt(a[1], a[2])
    [] o = "removeElementAt" -> RemoveElementAt(a[1], a[2])
    [] o = "removeElem" -> RemoveElem(a[1], a[2])
    [] o = "removeForeign" -> RemoveForeign(a[1])
    [] o = "removeAll" -> RemoveAll(a[1], a[2])
    [] o = "retainAll" -> RetainAll(a[1], a[2])
    [] o = "removeRange" -> RemoveRange(a[1], a[2], a[3])
    [] o \in {"clear", "removeAllElements"} -> Clear(a[1])
    [] o = "setSize" -> SetSize(a[1], a[2])
    [] o = "ensureCapacity" -> EnsureCapacity(a[1], a[2])
    [] o = "trimToSize" -> TrimToSize(a[1])
    [] o = "capacity" -> Capacity(a[1])
    [] o = "contains" -> Contains(a[1], a[2])
    [] o = "containsAll" -> ContainsAll(a[1], a[2])
    [] o = "indexOf" -> IndexOf(a[1], a[2])
    [] o = "indexOfFrom" -> IndexOfFrom(a[1], a[2], a[3])
    [] o = "lastIndexOf" -> LastIndexOf(a[1], a[2])
    [] o = "lastIndexOfFrom" -> LastIndexOfFrom(a[1], a[2], a[3])
    [] o = "size" -> Size(a[1])
    [] o = "isEmpty" -> IsEmpty(a[1])
    [] o = "toArray" -> ToArray(a[1])
    [] o = "copyInto" -> CopyInto(a[1], a[2])
    [] o = "iterate" -> Iterate(a[1])
    [] o = "equals" -> Equals(a[1], a[2])
    [] o = "clone" -> Clone(a[1], a[2])
    [] o = "copy" -> Copy(a[1], a[2])
    [] o = "assign" -> Assign(a[1], a[2])
    [] o = "fromInit" -> FromInit(a[1], a[2])
    [] o = "assignInit" -> AssignInit(a[1], a[2])
    [] o = "sized" -> Sized(a[1], a[2], a[3])
    [] o = "push" -> Push(a[1], a[2])
    [] o = "pop" -> Pop(a[1])
    [] o = "peek" -> Peek(a[1])
    [] o = "search" -> Search(a[1], a[2])
    [] o = "empty" -> EmptyQ(a[1])

Obs(e) == res' = e.r /\ exc' = e.x /\ vecs' = <<e.s[1], e.s[2]>> /\ cap' = <<e.s[3][1], e.s[3][2]>>

-----------------------------------------------------------------------------
Idx(s) == -1..(N(s) + 1)
C(o, a) == [o |-> o, a |-> a]
Lists == {<<>>, <<1>>} \cup (IF 2 \in Elems THEN {<<1, 2>>} ELSE {})
Calls ==
  UNION {
    {C(o, <<s, e>>) : o \in {"add", "addElement", "removeElem", "contains", "indexOf", "lastIndexOf"}, e \in Elems} \cup
    {C(o, <<s, i, e>>) : o \in {"addAt", "insertElementAt", "set", "setElementAt", "setOp"}, i \in Idx(s), e \in Elems} \cup
    {C(o, <<s, e, i>>) : o \in {"indexOfFrom", "lastIndexOfFrom"}, e \in Elems, i \in Idx(s)} \cup
    {C(o, <<s, i>>) : o \in {"get", "elementAt", "getOp", "removeAt", "removeElementAt"}, i \in Idx(s)} \cup
    {C(o, <<s, es>>) : o \in {"addAll", "removeAll", "retainAll", "containsAll", "copyInto"}, es \in Lists} \cup
    {C("addAllAt", <<s, i, es>>) : i \in Idx(s), es \in Lists \ {<<>>}} \cup
    {C("removeRange", <<s, f, t>>) : f \in Idx(s), t \in Idx(s)} \cup
    {C(o, <<s>>) : o \in {"firstElement", "lastElement", "removeForeign", "clear", "removeAllElements", "trimToSize", "capacity", "size", "isEmpty", "toArray", "iterate"}} \cup
    {C("setSize", <<s, n>>) : n \in -1..MaxLen} \cup {C("ensureCapacity", <<s, n>>) : n \in {-1, 0, 3}} \cup
    {C(o, <<s, d>>) : o \in {"copy", "assign", "equals"}, d \in Slots} \cup
    (IF Stackish THEN {C("push", <<s, e>>) : e \in Elems} \cup {C("search", <<s, e>>) : e \in Elems} \cup {C(o, <<s>>) : o \in {"pop", "peek", "empty"}}
     ELSE {C("clone", <<s, d>>) : d \in Slots} \cup {C(o, <<s, es>>) : o \in {"fromInit", "assignInit"}, es \in Lists} \cup
          {C("sized", <<s, c, k>>) : c \in {-1, 0, 1}, k \in {0, 2}})
    : s \in Slots }
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
SpecStack == (Init /\ kind = 0) /\ [][Next]_vars
Bound == N(1) <= MaxLen /\ N(2) <= MaxLen2 /\ \A s \in Slots : cap[s] <= 2 * MaxLen + Cap0

TypeOK == \A s \in Slots : N(s) <= cap[s]
RefusedKeeps == [][exc' # "" => UNCHANGED <<vecs, cap>>]_vars
OneAtATime == [][\A s \in Slots : vecs'[s] # vecs[s] => \A t \in Slots \ {s} : vecs'[t] = vecs[t]]_vars
=============================================================================

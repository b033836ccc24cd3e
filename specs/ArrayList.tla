----------------------------- MODULE ArrayList ------------------------------
(* Property C01: two ArrayList variables (slots 1 and 2) as sequences of    *)
(* integers.  Every public call is one action; `res` is what it returns     *)
(* (as a sequence of numbers), `exc` the exception class it raises.         *)
EXTENDS Text
VARIABLES lists,     \* [1..2 -> Seq(Int)]
          kind,      \* 0: elements are numbers, 1: elements are strings (their decimal text)
          res, exc
vars == <<lists, kind, res, exc>>
Slots == {1, 2}

Init == lists = [s \in Slots |-> <<>>] /\ kind = 0 /\ res = <<>> /\ exc = ""
New(k) == lists' = [s \in Slots |-> <<>>] /\ kind' = k /\ res' = <<>> /\ exc' = ""

Put(s, v) == lists' = [lists EXCEPT ![s] = v] /\ UNCHANGED kind
Ret(r) == res' = r /\ exc' = ""
Keep == UNCHANGED <<lists, kind>>
Refuse == Keep /\ res' = <<>> /\ exc' = "index"
InR(s, i) == i >= 0 /\ i < Len(lists[s])

Add(s, e)    == Put(s, Append(lists[s], e)) /\ Ret(<<1>>)
AddAt(s, i, e) == IF i >= 0 /\ i <= Len(lists[s]) THEN Put(s, InsertIdx(lists[s], i, <<e>>)) /\ Ret(<<>>) ELSE Refuse
Set(s, i, e) == IF InR(s, i) THEN Put(s, [lists[s] EXCEPT ![i + 1] = e]) /\ Ret(<<lists[s][i + 1]>>) ELSE Refuse
SetOp(s, i, e) == InR(s, i) /\ Put(s, [lists[s] EXCEPT ![i + 1] = e]) /\ Ret(<<lists[s][i + 1]>>)   \* list[i] = e
Get(s, i)    == IF InR(s, i) THEN Keep /\ Ret(<<lists[s][i + 1]>>) ELSE Refuse
RemoveAt(s, i) == IF InR(s, i) THEN Put(s, RemoveIdx(lists[s], i)) /\ Ret(<<lists[s][i + 1]>>) ELSE Refuse
RemoveElem(s, e) == LET p == IndexOfVal(lists[s], e, 0)
                    IN IF p < 0 THEN Keep /\ Ret(<<0>>) ELSE Put(s, RemoveIdx(lists[s], p)) /\ Ret(<<1>>)
Clear(s)     == Put(s, <<>>) /\ Ret(<<>>)
Contains(s, e) == Keep /\ Ret(<<Bool(IndexOfVal(lists[s], e, 0) >= 0)>>)
IndexOf(s, e) == Keep /\ Ret(<<IndexOfVal(lists[s], e, 0)>>)
LastIndexOf(s, e) == Keep /\ Ret(<<LastIndexOfVal(lists[s], e, Len(lists[s]) - 1)>>)
Size(s)      == Keep /\ Ret(<<Len(lists[s])>>)
IsEmpty(s)   == Keep /\ Ret(<<Bool(lists[s] = <<>>)>>)
ToArray(s)   == Keep /\ Ret(lists[s])
Iterate(s)   == Keep /\ Ret(lists[s])                       \* for (E e : list)
ForEach(s, n) == Keep /\ Ret(Sub(lists[s], 0, Min2(Max2(n, 1), Len(lists[s]))))   \* callback answers false at its n-th call
TrimToSize(s) == Keep /\ Ret(<<>>)
ElemText(e) == IF kind = 1 THEN Quote \o (IF e = 0 THEN <<>> ELSE Dec(e)) \o Quote ELSE Dec(e)   \* the default string is empty
ToText(s)  == Keep /\ Ret(<<91>> \o JoinText([k \in 1..Len(lists[s]) |-> ElemText(lists[s][k])], CommaSpace) \o <<93>>)
Clone(s, d)  == Put(d, lists[s]) /\ Ret(<<>>)               \* d = s.clone()
Copy(s, d)   == Put(d, lists[s]) /\ Ret(<<>>)               \* destroy d, copy-construct it from s
Assign(s, d) == Put(d, lists[s]) /\ Ret(<<>>)               \* d = s (also self-assignment)
FromInit(s, es) == Put(s, es) /\ Ret(<<>>)                  \* initializer list (up to four elements) or Array
FromArray(s, es) == Put(s, es) /\ Ret(<<>>)
Sized(s, n)  == n >= 0 /\ Put(s, [k \in 1..n |-> 0]) /\ Ret(<<>>)   \* ArrayList(int): n default elements, as the tests pin

RemoveRange(s, f, t) == IF f >= 0 /\ f <= t /\ t <= Len(lists[s])
                        THEN Put(s, Sub(lists[s], 0, f) \o Sub(lists[s], t, Len(lists[s]))) /\ Ret(<<>>) ELSE Refuse

Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o = "add" -> Add(a[1], a[2])
    [] o = "addAt" -> AddAt(a[1], a[2], a[3])
    [] o = "set" -> Set(a[1], a[2], a[3])
    [] o = "setOp" -> SetOp(a[1], a[2], a[3])
    [] o = "get" -> Get(a[1], a[2])
    [] o = "removeAt" -> RemoveAt(a[1], a[2])
    [] o = "removeElem" -> RemoveElem(a[1], a[2])
    [] o = "clear" -> Clear(a[1])
    [] o = "contains" -> Contains(a[1], a[2])
    [] o = "indexOf" -> IndexOf(a[1], a[2])
    [] o = "lastIndexOf" -> LastIndexOf(a[1], a[2])
    [] o = "size" -> Size(a[1])
    [] o = "isEmpty" -> IsEmpty(a[1])
    [] o = "toArray" -> ToArray(a[1])
    [] o = "iterate" -> Iterate(a[1])
    [] o = "forEach" -> ForEach(a[1], a[2])
    [] o = "trimToSize" -> TrimToSize(a[1])
    [] o = "toString" -> ToText(a[1])
    [] o = "clone" -> Clone(a[1], a[2])
    [] o = "copy" -> Copy(a[1], a[2])
    [] o = "assign" -> Assign(a[1], a[2])
    [] o = "fromInit" -> FromInit(a[1], a[2])
    [] o = "fromArray" -> FromArray(a[1], a[2])
    [] o = "removeRange" -> RemoveRange(a[1], a[2], a[3])
    [] o = "sized" -> Sized(a[1], a[2])

Obs(e) == res' = e.r /\ exc' = e.x /\ lists' = e.s

-----------------------------------------------------------------------------
CONSTANTS Elems, MaxLen
Idx(s) == -1..(Len(lists[s]) + 1)
C(o, a) == [o |-> o, a |-> a]
(* every call the model offers in the current state *)
Calls ==
  UNION {
    {C("add", <<s, e>>) : e \in Elems} \cup
    {C("addAt", <<s, i, e>>) : i \in Idx(s), e \in Elems} \cup
    {C("set", <<s, i, e>>) : i \in Idx(s), e \in Elems} \cup
    {C("setOp", <<s, i, e>>) : i \in 0..(Len(lists[s]) - 1), e \in Elems} \cup
    {C("get", <<s, i>>) : i \in Idx(s)} \cup {C("removeAt", <<s, i>>) : i \in Idx(s)} \cup
    {C(o, <<s, e>>) : o \in {"removeElem", "contains", "indexOf", "lastIndexOf"}, e \in Elems} \cup
    {C(o, <<s>>) : o \in {"clear", "size", "isEmpty", "toArray", "iterate", "trimToSize", "toString"}} \cup
    {C("forEach", <<s, n>>) : n \in 1..(Len(lists[s]) + 1)} \cup
    {C("removeRange", <<s, f, t>>) : f \in Idx(s), t \in Idx(s)} \cup
    {C(o, <<s, d>>) : o \in {"clone", "copy", "assign"}, d \in Slots} \cup
    {C("fromInit", <<s, es>>) : es \in {<<>>, <<1>>, <<1, 2>>}} \cup {C("fromArray", <<s, es>>) : es \in {<<>>, <<2, 1>>}} \cup
    {C("sized", <<s, n>>) : n \in 0..2}
    : s \in Slots }
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == \A s \in Slots : Len(lists[s]) <= MaxLen

(* Design-level properties, checked by TLC over all reachable states *)
TypeOK == \A s \in Slots : lists[s] \in Seq(Elems \cup {0, 1, 2})
RefusedKeeps == [][exc' # "" => UNCHANGED lists]_vars
(* no call changes more than one list, and lengths change by what the call inserts or removes *)
OneAtATime == [][\A s \in Slots : lists'[s] # lists[s] => \A t \in Slots \ {s} : lists'[t] = lists[t]]_vars
=============================================================================

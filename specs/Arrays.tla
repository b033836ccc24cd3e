------------------------------- MODULE Arrays --------------------------------
(* Property C26: two Array variables as sequences of numbers, and the Arrays utilities on them. *)
(* kind: 0 int, 1 byte, 2 short, 3 long, 4 char, 5 float, 6 double, 7 boolean, 8 Integer, 9 String.  A number stands for an element,  *)
(* larger numbers for larger elements, 0 for the default one; the long element that v stands for is 3000000019 v.                  *)
EXTENDS Bits, TLC, SequencesExt
LOCAL INSTANCE Text
C(o, a) == [o |-> o, a |-> a]
VARIABLES arr, kind, res, exc
vars == <<arr, kind, res, exc>>
CONSTANTS Vals, MaxLen, Kinds
New(k) == arr' = <<<<>>, <<>>>> /\ kind' = k /\ res' = <<>> /\ exc' = ""
Init == arr = <<<<>>, <<>>>> /\ kind \in Kinds /\ res = <<>> /\ exc = ""
-----------------------------------------------------------------------------
Put(i, v, r) == arr' = [arr EXCEPT ![i] = v] /\ res' = r /\ exc' = "" /\ UNCHANGED kind
Ret(r) == res' = r /\ exc' = "" /\ UNCHANGED <<arr, kind>>
Fail(x) == res' = <<>> /\ exc' = x /\ UNCHANGED <<arr, kind>>
In(s, k) == 0 <= k /\ k < Len(s)
(* ranges of sort, search and fill include both ends, as the tests pin *)
Legal(s, f, t) == 0 <= f /\ f <= t /\ t < Len(s)
Splice(s, f, m) == Sub(s, 0, f) \o m \o Sub(s, f + Len(m), Len(s))
SortRange(s, f, t) == IF f > t THEN s ELSE Splice(s, f, SortSeq(Sub(s, f, t + 1), <))
SortedRange(s, f, t) == \A k \in (f + 1)..t : s[k] <= s[k + 1]
Zeros(n) == [k \in 1..Max2(n, 0) |-> 0]
Prefix(s, n) == Sub(s, 0, Min2(Len(s), n)) \o Zeros(n - Len(s))
At(s, v, f, t) == {k \in f..t : s[k + 1] = v}
Search(s, f, t, v) == IF ~Legal(s, f, t) THEN Ret(<<-1>>)
                      ELSE IF SortedRange(s, f, t)
                           THEN IF At(s, v, f, t) = {} THEN Ret(<<-1>>) ELSE \E k \in At(s, v, f, t) : Ret(<<k>>)     \* any index of the key
                           ELSE \E k \in (-1)..(Len(s) - 1) : Ret(<<k>>)
(* element hashes, as two limbs *)
Two(v, n) == IF v >= 0 THEN LSmall(v, n) ELSE LNot(LSmall(-v - 1, n))
LongOf(v) == LMul(Two(v, 4), <<24083, 45776, 0, 0>>)                        \* 3000000019 = 45776 * 65536 + 24083
ElemHash(v) == CASE kind \in {0, 1, 2, 4} -> Two(v, 2)
                 [] kind = 3 -> Ev1(LAMBDA e : LXor(<<e[1], e[2]>>, <<e[3], e[4]>>), LongOf(v))
                 [] kind = 7 -> IF v = 0 THEN <<1237, 0>> ELSE <<1231, 0>>
HashOf(s) == FoldLeft(LAMBDA h, v : LAdd(MulRow(h, 31), ElemHash(v)), <<1, 0>>, s)
Do(o, a) ==
  LET s == IF o \in {"new", "asList"} THEN <<>> ELSE arr[a[1]] IN
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o = "init" -> Put(a[1], a[2], <<>>)
    [] o = "sized" -> Put(a[1], Zeros(a[2]), <<>>)
    [] o = "copy" -> Put(a[1], arr[a[2]], <<>>)
    [] o = "push" -> Put(a[1], Append(s, a[2]), <<>>)
    [] o = "append" -> Put(a[1], s \o a[2], s \o a[2])                              \* a += {...} answers the whole array
    [] o = "get" -> IF In(s, a[2]) THEN Ret(<<s[a[2] + 1]>>) ELSE Fail("std")
    [] o = "setAt" -> IF In(s, a[2]) THEN Put(a[1], [s EXCEPT ![a[2] + 1] = a[3]], <<>>) ELSE Fail("std")
    [] o = "iterate" -> Ret(s)
    [] o = "sortAll" -> Put(a[1], SortRange(s, 0, Len(s) - 1), <<>>)
    [] o = "sort" -> IF a[2] > a[3] \/ Legal(s, a[2], a[3]) THEN Put(a[1], SortRange(s, a[2], a[3]), <<>>) ELSE Fail("undefined")
    [] o = "searchAll" -> Search(s, 0, Len(s) - 1, a[2])
    [] o = "search" -> IF a[3] < Len(s) THEN Search(s, a[2], a[3], a[4]) ELSE Fail("undefined")
    [] o = "copyOf" -> Put(a[2], Prefix(s, a[3]), <<>>)
    [] o = "copyOfRange" -> Put(a[2], IF 0 <= a[3] /\ a[3] <= a[4] /\ a[4] <= Len(s) THEN Sub(s, a[3], a[4]) ELSE <<>>, <<>>)
    [] o = "equals" -> Ret(<<Bool(s = arr[a[2]])>>)
    [] o = "fillAll" -> Put(a[1], [k \in 1..Len(s) |-> a[2]], <<>>)
    [] o = "fill" -> IF Legal(s, a[2], a[3]) THEN Put(a[1], Splice(s, a[2], [k \in 1..(a[3] - a[2] + 1) |-> a[4]]), <<>>) ELSE Ret(<<>>)
    [] o = "hash" -> IF s = <<>> THEN \E b \in 0..1 : Ret(<<<<b, 0>>>>) ELSE Ret(<<HashOf(s)>>)
    [] o = "sameHash" -> IF s = arr[a[2]] THEN Ret(<<1>>) ELSE \E b \in 0..1 : Ret(<<b>>)
    [] o = "asList" -> Ret(a[1])
Obs(e) == exc' = e.x /\ res' = e.r /\ e.s = arr'
-----------------------------------------------------------------------------
Lists == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Calls ==
  LET s == arr[1] ix == 0..Len(s) IN
  (IF s = <<>> /\ arr[2] = <<>> THEN {C("init", <<1, l>>) : l \in Lists} ELSE
   {C("sort", <<1, f, t, h>>) : f \in ix, t \in (-1)..(Len(s) - 1), h \in 0..1} \cup {C("sortAll", <<1, h>>) : h \in 0..2}
   \cup {C("search", <<1, f, t, v, h>>) : f \in ix, t \in (-1)..(Len(s) - 1), v \in Vals, h \in 0..1} \cup {C("searchAll", <<1, v, h>>) : v \in Vals, h \in 0..1}
   \cup {C("copyOf", <<1, 2, n, h>>) : n \in 0..(Len(s) + 2), h \in 0..1}
   \cup {C("copyOfRange", <<1, 2, f, t, h>>) : f \in (-1)..(Len(s) + 1), t \in (-1)..(Len(s) + 1), h \in 0..1}
   \cup {C("fill", <<1, f, t, v>>) : f \in (-1)..Len(s), t \in (-1)..(Len(s) + 1), v \in Vals} \cup {C("fillAll", <<1, v>>) : v \in Vals}
   \cup {C(o, <<1, 2>>) : o \in {"equals", "sameHash"}} \cup {C("copy", <<2, 1>>)}
   \cup {C(o, <<1>>) : o \in {"hash", "iterate"}} \cup {C("get", <<1, k>>) : k \in (-1)..(Len(s) + 1)} \cup {C("setAt", <<1, k, v>>) : k \in (-1)..(Len(s) + 1), v \in Vals}
   \cup {C("append", <<1, l>>) : l \in {<<>>} \cup {<<v, w>> : v \in Vals, w \in Vals}} \cup {C("push", <<1, v>>) : v \in Vals})
  \cup {C("sized", <<1, n>>) : n \in 0..MaxLen} \cup {C("asList", <<s>>)}
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == Len(arr[1]) <= MaxLen /\ Len(arr[2]) <= MaxLen
ValSet == {-1, 0, 1}
(* theorems of the model *)
Count(s, v) == Cardinality({k \in 1..Len(s) : s[k] = v})
SortTheorem == \A i \in 1..2 : LET s == arr[i] IN \A f \in 0..(Len(s) - 1) : \A t \in f..(Len(s) - 1) :
                 LET z == SortRange(s, f, t) IN /\ SortedRange(z, f, t) /\ Len(z) = Len(s) /\ \A v \in Vals : Count(z, v) = Count(s, v)
                                                /\ \A k \in 1..Len(s) : ((k - 1 < f) \/ (k - 1 > t)) => z[k] = s[k]
                                                /\ SortRange(z, f, t) = z
HashTheorem == \A i \in 1..2 : arr[i] # <<>> => HashOf(arr[i]) = LAdd(MulRow(HashOf(Sub(arr[i], 0, Len(arr[i]) - 1)), 31), ElemHash(arr[i][Len(arr[i])]))
               /\ (arr[1] = arr[2] => HashOf(arr[1]) = HashOf(arr[2]))
MCView == <<arr, kind>>
=============================================================================

------------------------------ MODULE ArrayObj ------------------------------
(* Property C31: the Array class every other class passes its sequences in.  Two arrays; kind 0 holds int, 1 String, 2 Array of int. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Text
C(o, a) == [o |-> o, a |-> a]
CONSTANTS Elems, MaxLen, MaxLen2, Kinds
VARIABLES arr, kind, res, exc
vars == <<arr, kind, res, exc>>
New(k) == arr' = <<<<>>, <<>>>> /\ kind' = k /\ res' = <<>> /\ exc' = ""
Init == arr = <<<<>>, <<>>>> /\ kind \in Kinds /\ res = <<>> /\ exc = ""
Put(i, s, r) == arr' = [arr EXCEPT ![i] = s] /\ res' = r /\ exc' = "" /\ UNCHANGED kind
Ret(r) == res' = r /\ exc' = "" /\ UNCHANGED <<arr, kind>>
Fail(x) == res' = <<>> /\ exc' = x /\ UNCHANGED <<arr, kind>>
In(i, k) == k >= 0 /\ k < Len(arr[i])
Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o = "empty" -> Put(a[1], <<>>, <<>>)
    [] o = "sized" -> IF a[2] < 0 THEN Fail("std") ELSE Put(a[1], [k \in 1..a[2] |-> 0], <<>>)
    [] o \in {"list", "chars"} -> Put(a[1], a[2], <<>>)
    [] o = "push" -> Put(a[1], Append(arr[a[1]], a[2]), <<>>)
    [] o = "pushOwn" -> IF In(a[1], a[2]) THEN Put(a[1], Append(arr[a[1]], arr[a[1]][a[2] + 1]), <<>>) ELSE Fail("std")
    [] o = "plus" -> Put(a[1], arr[a[1]] \o a[2], arr[a[1]] \o a[2])
    [] o = "set" -> IF In(a[1], a[2]) THEN Put(a[1], [arr[a[1]] EXCEPT ![a[2] + 1] = a[3]], <<>>) ELSE Fail("std")
    [] o \in {"get", "at", "atConst"} -> IF In(a[1], a[2]) THEN Ret(<<arr[a[1]][a[2] + 1]>>) ELSE Fail("std")
    [] o \in {"copy", "assign"} -> Put(a[1], arr[a[2]], <<>>)
    [] o = "iterate" -> Ret(arr[a[1]])
    [] o = "passed" -> Ret(Append(arr[a[1]], a[2]))                 \* given to a function that adds to its parameter: the caller's array stays
Obs(e) == exc' = e.x /\ res' = e.r /\ \A i \in 1..2 : e.s[i] = <<Len(arr'[i])>> \o arr'[i]
-----------------------------------------------------------------------------
Seqs == UNION {[1..n -> Elems] : n \in 0..2}
Idx(i) == -1..(Len(arr[i]))
Calls == {C("empty", <<1>>)} \cup {C("sized", <<1, n>>) : n \in {-1, 0, 2}} \cup {C("list", <<i, s>>) : i \in {1, 2}, s \in Seqs} \cup (IF kind = 1 THEN {C("chars", <<1, s>>) : s \in Seqs} ELSE {})
         \cup {C("push", <<i, e>>) : i \in {1, 2}, e \in Elems} \cup {C("pushOwn", <<1, k>>) : k \in Idx(1)} \cup {C("plus", <<1, s>>) : s \in Seqs} \cup {C("set", <<1, k, e>>) : k \in Idx(1), e \in Elems}
         \cup {C(o, <<1, k>>) : o \in {"get", "at", "atConst"}, k \in Idx(1)} \cup {C(o, <<i, j>>) : o \in {"copy", "assign"}, i \in {1, 2}, j \in {1, 2}}
         \cup {C("iterate", <<1>>)} \cup {C("passed", <<1, e>>) : e \in Elems}
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == Len(arr[1]) <= MaxLen /\ Len(arr[2]) <= MaxLen2
OneAtATime == [][\/ arr'[1] = arr[1] \/ arr'[2] = arr[2]]_vars
Failing == exc # "" => res = <<>>
MCView == <<arr, kind, exc, res>>
=============================================================================

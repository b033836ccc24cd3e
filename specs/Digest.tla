------------------------------- MODULE Digest --------------------------------
(* Property C18: two MessageDigest objects; each is its algorithm (5: MD5, 1: SHA1) and the bytes fed since the last reset. *)
EXTENDS Hash, FiniteSets
VARIABLES inst, res, exc
vars == <<inst, res, exc>>
Slots == {1, 2}
CONSTANTS Chunks, MaxLen, MaxLen2
Start(k) == <<[alg |-> IF k % 2 = 0 THEN 5 ELSE 1, msg |-> <<>>], [alg |-> IF k \div 2 = 0 THEN 5 ELSE 1, msg |-> <<>>]>>
Init == inst = Start(0) /\ res = <<>> /\ exc = ""
New(k) == inst' = Start(k) /\ res' = <<>> /\ exc' = ""
Size(s) == IF inst[s].alg = 5 THEN 16 ELSE 20
Value(s) == IF inst[s].alg = 5 THEN MD5(inst[s].msg) ELSE SHA1(inst[s].msg)
Put(s, v) == inst' = [inst EXCEPT ![s] = v] /\ res' = <<>> /\ exc' = ""
Tell(r) == UNCHANGED inst /\ res' = r /\ exc' = ""
Refuse(x) == UNCHANGED inst /\ res' = <<>> /\ exc' = x
Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o = "get" -> Put(a[1], [alg |-> a[2], msg |-> <<>>])                     \* getInstance("MD5") or ("SHA1")
    [] o = "getUnknown" -> Refuse("nosuchalg")
    [] o = "update" -> IF a[2] = <<>> THEN Refuse("interrupted") ELSE Put(a[1], [inst[a[1]] EXCEPT !.msg = @ \o a[2]])
    [] o = "updateNull" -> Refuse("interrupted")
    [] o = "reset" -> Put(a[1], [inst[a[1]] EXCEPT !.msg = <<>>])
    [] o = "digest" -> IF a[2] < Size(a[1]) THEN Refuse("interrupted")       \* a target of a[2] bytes, all '*' before
                       ELSE Tell(<<Size(a[1])>> \o Value(a[1]) \o [k \in 1..(a[2] - Size(a[1])) |-> 42])
    [] o = "digestNull" -> Refuse("interrupted")
    [] o = "length" -> Tell(<<Size(a[1])>>)
    [] o = "algorithm" -> Tell(<<inst[a[1]].alg>>)
    [] o = "copy" -> Put(a[2], inst[a[1]])
    [] o = "assign" -> Put(a[2], inst[a[1]])
Obs(e) == res' = e.r /\ exc' = e.x
-----------------------------------------------------------------------------
C(o, a) == [o |-> o, a |-> a]
Rep(n) == [k \in 1..n |-> 97]
Calls == IF Len(inst) # 2 THEN {} ELSE {C("update", <<1, Rep(n)>>) : n \in Chunks} \cup {C(o, <<1>>) : o \in {"updateNull", "reset", "length", "algorithm", "digestNull"}} \cup
         {C("digest", <<s, n>>) : s \in Slots, n \in {0, 15, 16, 19, 20, 23}} \cup {C(o, <<1, 2>>) : o \in {"copy", "assign"}} \cup
         {C("get", <<1, k>>) : k \in {1, 5}} \cup {C("getUnknown", <<1, <<77, 68, 120>>>>)} \cup {C("update", <<2, Rep(3)>>)} \cup {C("update", <<1, <<>>>>)}
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == Len(inst[1].msg) <= MaxLen /\ Len(inst[2].msg) <= MaxLen2
(* refused calls and queries change nothing; a call changes one object only *)
Apart == [][(exc' # "" => inst' = inst) /\ Cardinality({s \in Slots : inst'[s] # inst[s]}) <= 1]_vars
(* the same bytes always give the same digest, of the algorithm's length *)
Right == VectorsOk /\ \A s \in Slots : Len(Value(s)) = Size(s)
MCView == inst
=============================================================================

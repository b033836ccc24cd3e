----------------------------- MODULE Exceptions ------------------------------
(* Property C29: exception objects.  Slots hold objects with a class, a message and a cause (the slot of another object, *)
(* 0 for none); raising an object in front of a handler for some class is caught exactly when that class is the object's *)
(* own or one of its ancestors, and the handler sees the message and cause of the object.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Text
CONSTANTS Classes, Texts, Slots, Depth
VARIABLES objs, res, exc
vars == <<objs, res, exc>>
(* 0 Throwable  1 Exception  2 Error  3 Runtime  4 IndexOutOfBounds  5 StringIndexOutOfBounds  6 Arithmetic  7 IllegalArgument          *)
(* 8 NumberFormat  9 NoSuchElement  10 NegativeArraySize  11 EmptyStack  12 UnsupportedOperation  13 ClassCast  14 CloneNotSupported     *)
(* 15 Interrupted  16 AssertionError  17 IO  18 UnsupportedEncoding  19 GeneralSecurity  20 NoSuchAlgorithm  21 MediaType               *)
(* 22 WebApplication  23 ClientError  24 BadRequest  25 CQL                                                                              *)
Parent == <<-1, 0, 0, 1, 3, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 1, 17, 1, 19, 1, 3, 22, 23, 1>>
All == 0..25
RECURSIVE Is(_, _)
Is(c, b) == c = b \/ (c # 0 /\ Is(Parent[c + 1], b))
HasText(c) == c \notin {11, 16}
HasBoth(c) == c \notin {8, 10, 11, 18}
HasCause(c) == c \notin {8, 10, 11, 16, 18}
None == [class |-> -1, text |-> <<>>, cause |-> 0]
Init == objs = [s \in 1..3 |-> None] /\ res = <<>> /\ exc = ""
New(k) == objs' = [s \in 1..3 |-> None] /\ res' = <<>> /\ exc' = ""
Put(s, c, t, z) == objs' = [objs EXCEPT ![s] = [class |-> c, text |-> t, cause |-> z]] /\ res' = <<>> /\ exc' = ""
Show(o) == <<o.text, o.cause>>
Live(s) == objs[s].class >= 0
Prefix == <<83, 116, 114, 105, 110, 103, 32, 105, 110, 100, 101, 120, 32, 111, 117, 116, 32, 111, 102, 32, 114, 97, 110, 103, 101, 58, 32>>    \* "String index out of range: "
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
(* a0 slot, a1 class; the cause is the slot of an object that exists *)
Do(o, a) ==
  CASE o = "new" -> New(0)
    [] o = "plain" -> Put(a[1], a[2], <<>>, 0)
    [] o = "text" -> HasText(a[2]) /\ Put(a[1], a[2], a[3], 0)
    [] o = "both" -> HasBoth(a[2]) /\ Put(a[1], a[2], a[3], a[4])
    [] o = "cause" -> HasCause(a[2]) /\ Put(a[1], a[2], <<>>, a[3])
    [] o = "outOf" -> Put(a[1], 5, Prefix \o Dec(a[2]), 0)
    [] o = "assertInt" -> Put(a[1], 16, Dec(a[2]), 0)
    [] o = "assertLong" -> Put(a[1], 16, Dec(a[2]), 0)
    [] o = "assertBool" -> Put(a[1], 16, IF a[2] = 1 THEN True ELSE False, 0)
    [] o = "assertChar" -> Put(a[1], 16, <<a[2]>>, 0)
    [] o = "copy" -> Live(a[2]) /\ Put(a[1], objs[a[2]].class, objs[a[2]].text, objs[a[2]].cause)
    [] o = "assign" -> Live(a[1]) /\ Live(a[2]) /\ objs[a[1]].class = objs[a[2]].class /\ Put(a[1], objs[a[2]].class, objs[a[2]].text, objs[a[2]].cause)
    [] o = "raise" -> Live(a[1]) /\ res' = (IF Is(objs[a[1]].class, a[2]) THEN Show(objs[a[1]]) ELSE <<>>) /\ exc' = "" /\ UNCHANGED objs
    [] o = "keep" -> Live(a[2]) /\ Put(a[1], objs[a[2]].class, objs[a[2]].text, objs[a[2]].cause)         \* raised, caught as its own class and kept
    [] o = "chain" -> Live(a[1]) /\ UNCHANGED objs /\ exc' = "" /\                                       \* the messages along the causes, at most three
                      LET At(z) == objs[z]
                          c1 == At(a[1]).cause
                          c2 == IF c1 = 0 THEN 0 ELSE At(c1).cause
                      IN res' = <<At(a[1]).text>> \o (IF c1 = 0 THEN <<>> ELSE <<At(c1).text>> \o (IF c2 = 0 THEN <<>> ELSE <<At(c2).text>>))
State == [s \in 1..3 |-> IF Live(s) THEN Show(objs[s]) ELSE <<>>]
Obs(e) == exc' = e.x /\ res' = e.r /\ [s \in 1..3 |-> IF objs'[s].class >= 0 THEN Show(objs'[s]) ELSE <<>>] = e.s
C(o, a) == [o |-> o, a |-> a]
Causes == {s \in Slots : Live(s)}
W(x) == <<x>>
Calls == {C("plain", <<s, c>>) : s \in Slots, c \in Classes} \cup {C("text", <<s, c, t>>) : s \in Slots, c \in {k \in Classes : HasText(k)}, t \in Texts}
         \cup {C("both", <<s, c, t, z>>) : s \in Slots, c \in {k \in Classes : HasBoth(k)}, t \in Texts, z \in Causes \cup {0}}
         \cup {C("cause", <<s, c, z>>) : s \in Slots, c \in {k \in Classes : HasCause(k)}, z \in Causes}
         \cup {C("outOf", <<s, n>>) : s \in Slots, n \in {0, 17, -1}} \cup {C("assertInt", <<s, n>>) : s \in Slots, n \in {0, 17, -1}} \cup {C("assertBool", <<s, n>>) : s \in Slots, n \in {0, 1}}
         \cup {C("assertChar", <<s, 65>>) : s \in Slots} \cup {C("assertLong", <<s, 12345>>) : s \in Slots}
         \cup {C(o, <<s, t>>) : o \in {"copy", "keep"}, s \in Slots, t \in Causes}
         \cup {C("assign", p) : p \in {q \in Causes \X Causes : objs[q[1]].class = objs[q[2]].class}}
         \cup {C("raise", <<s, c>>) : s \in Causes, c \in All} \cup {C("chain", <<s>>) : s \in Causes}
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= Depth
-----------------------------------------------------------------------------
SomeTexts == {<<>>, <<104, 105>>}
Tree == \A c \in All : Is(c, 0) /\ Is(c, c) /\ (Is(c, 1) # Is(c, 2) \/ c = 0) /\ \A d \in All : Is(c, d) /\ Is(d, c) => c = d
TypeOK == \A s \in 1..3 : objs[s].class \in All \cup {-1} /\ objs[s].cause \in 0..3 /\ (objs[s].cause # 0 => Live(objs[s].cause))
(* only the named slot changes *)
Others == [][\E s \in 1..3 : \A t \in 1..3 \ {s} : objs'[t] = objs[t]]_vars
MCView == objs
=============================================================================

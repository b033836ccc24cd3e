-------------------------------- MODULE Uuid --------------------------------
(* Property C23: 128-bit identifiers, their text and fields, and the generator of time-based ones against a clock *)
(* under the test's control.  A register holds the two halves, four 16-bit limbs each.                            *)
EXTENDS Bits, TLC
C(o, a) == [o |-> o, a |-> a]
LOCAL INSTANCE Text
VARIABLES reg, clk, seen, res, exc
vars == <<reg, clk, seen, res, exc>>
CONSTANTS Halves, Depth
Zero == LZero(4)
Nil == [m |-> Zero, l |-> Zero]
NoClock == [last |-> -1, adj |-> 0, seq |-> 0]                   \* nothing generated so far
New(k) == reg' = <<Nil, Nil>> /\ clk' = NoClock /\ seen' = <<>> /\ res' = <<>> /\ exc' = ""
Init == reg = <<Nil, Nil>> /\ clk = NoClock /\ seen = <<>> /\ res = <<>> /\ exc = ""
-----------------------------------------------------------------------------
(* text *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex4(x) == <<HexDigit(x \div 4096), HexDigit((x \div 256) % 16), HexDigit((x \div 16) % 16), HexDigit(x % 16)>>
Dash == <<45>>
Str(u) == Hex4(u.m[4]) \o Hex4(u.m[3]) \o Dash \o Hex4(u.m[2]) \o Dash \o Hex4(u.m[1]) \o Dash \o Hex4(u.l[4]) \o Dash \o Hex4(u.l[3]) \o Hex4(u.l[2]) \o Hex4(u.l[1])
Digit16(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Dashes(t) == {p \in 1..Len(t) : t[p] = 45}
DashNo(t, k) == IF k = 0 THEN 0 ELSE IF k = 5 THEN Len(t) + 1 ELSE CHOOSE p \in Dashes(t) : Cardinality({q \in Dashes(t) : q < p}) = k - 1
Group(t, k) == SubSeq(t, DashNo(t, k - 1) + 1, DashNo(t, k) - 1)
Widest == <<8, 4, 4, 4, 12>>
Legal(t) == /\ Cardinality(Dashes(t)) = 4
            /\ \A k \in 1..5 : Len(Group(t, k)) \in 1..Widest[k] /\ \A j \in 1..Len(Group(t, k)) : Digit16(Group(t, k)[j]) >= 0
(* the limb of a group, counted from its end *)
Nibble(g, j) == IF j >= Len(g) THEN 0 ELSE Digit16(g[Len(g) - j])
Limb(g, n) == Nibble(g, 4 * n) + 16 * Nibble(g, 4 * n + 1) + 256 * Nibble(g, 4 * n + 2) + 4096 * Nibble(g, 4 * n + 3)
Parse(t) == LET g == [k \in 1..5 |-> Group(t, k)] IN
            [m |-> <<Limb(g[3], 0), Limb(g[2], 0), Limb(g[1], 0), Limb(g[1], 1)>>, l |-> <<Limb(g[5], 0), Limb(g[5], 1), Limb(g[5], 2), Limb(g[4], 0)>>]
(* fields *)
Version(u) == u.m[1] \div 4096
Variant(u) == LET top == u.l[4] \div 8192 IN IF top < 4 THEN 0 ELSE IF top < 6 THEN 2 ELSE top
ClockSequence(u) == IF Version(u) = 1 THEN u.l[4] % 16384 ELSE -1
Node(u) == <<u.l[1], u.l[2], u.l[3], 0>>
HashOf(u) == LET x == LXor(u.m, u.l) IN LXor(<<x[1], x[2]>>, <<x[3], x[4]>>)
Compare(u, v) == IF u.m # v.m THEN LCompare(u.m, v.m) ELSE LCompare(u.l, v.l)
Fields(u) == <<Str(u), u.m, u.l, Version(u), Variant(u), ClockSequence(u), Node(u), HashOf(u)>>
-----------------------------------------------------------------------------
(* the clock: microseconds; a UUID carries ten ticks per microsecond, so that ten of them share a reading; a clock
   that is set back is told apart by the sequence number *)
MaxAdj == 9
RECURSIVE Generate(_, _)
Reading(ts, k) == IF k <= Len(ts) THEN ts[k] ELSE ts[Len(ts)] + (k - Len(ts))    \* the clock moves on when the list is used up
Generate(ts, k) == LET now == Reading(ts, k) IN
    IF now < clk.last THEN [last |-> now, adj |-> 0, seq |-> clk.seq + 1]
    ELSE IF now = clk.last THEN IF clk.adj >= MaxAdj THEN Generate(ts, k + 1) ELSE [clk EXCEPT !.adj = @ + 1]
    ELSE [clk EXCEPT !.last = now, !.adj = 0]
Stamp(c) == <<c.last * 10 + c.adj, c.seq>>
-----------------------------------------------------------------------------
Put(i, u) == reg' = [reg EXCEPT ![i] = u] /\ res' = <<>> /\ exc' = "" /\ UNCHANGED <<clk, seen>>
Ret(r) == res' = r /\ exc' = "" /\ UNCHANGED <<reg, clk, seen>>
Fail(x) == res' = <<>> /\ exc' = x /\ UNCHANGED <<reg, clk, seen>>
Do(o, a) ==
  CASE o = "new" -> New(0)
    [] o = "make" -> Put(a[1], [m |-> a[2], l |-> a[3]])
    [] o = "none" -> Put(a[1], Nil)
    [] o = "copy" -> Put(a[1], reg[a[2]])
    [] o = "parse" -> IF Legal(a[2]) THEN Put(a[1], Parse(a[2])) ELSE Fail("illegal")
    [] o = "reparse" -> Put(a[1], reg[a[2]])                     \* parses the other's string form
    [] o = "fields" -> Ret(Fields(reg[a[1]]))
    [] o = "compare" -> Ret(<<Compare(reg[a[1]], reg[a[2]]), Bool(reg[a[1]] = reg[a[2]])>>)
    [] o = "time" -> LET c == Generate(a[1], 1) IN clk' = c /\ seen' = Append(seen, Stamp(c)) /\ res' = Stamp(c) \o <<1, 2, 1>> /\ exc' = "" /\ UNCHANGED reg
    [] o = "random" -> TRUE                                       \* see Obs
Random(e) == LET u == [m |-> e.r[1], l |-> e.r[2]] IN
             /\ e.x = "" /\ Version(u) = 4 /\ Variant(u) = 2 /\ u \notin {reg[1], reg[2]}
             /\ reg' = [reg EXCEPT ![e.a[1]] = u] /\ res' = e.r /\ exc' = "" /\ UNCHANGED <<clk, seen>>
Obs(e) == /\ IF e.o = "random" THEN Random(e) ELSE exc' = e.x /\ res' = e.r
          /\ e.s = <<reg'[1].m, reg'[1].l, reg'[2].m, reg'[2].l>>
-----------------------------------------------------------------------------
HalfSet == {<<1, 0, 0, 32512>>, <<0, 0, 0, 0>>, <<48879, 51966, 0, 32768>>, <<4113, 2, 3, 49152>>, <<65535, 65535, 65535, 65535>>}
Upper(t) == [k \in 1..Len(t) |-> IF t[k] \in 97..122 THEN t[k] - 32 ELSE t[k]]
SetAt(t, p, c) == [t EXCEPT ![p] = c]
Spoil(t) == {SetAt(t, p, c) : p \in {1, 9, 19, 24, 36}, c \in {45, 103, 58, 47, 96, 64, 71, 43, 32, 0}} \cup {Sub(t, 1, 36), Sub(t, 0, 35), <<>>, Dash, t \o Dash, t \o <<48>>, Dash \o t, <<48>> \o t,
            Sub(t, 0, 8) \o Sub(t, 9, 36), Sub(t, 0, 23) \o Sub(t, 24, 36), Sub(t, 0, 24), Sub(t, 0, 23), <<48, 45, 48, 45, 48, 45, 48, 45, 48>>, <<48, 120>> \o Sub(t, 2, 36)}
Texts == UNION {LET t == Str([m |-> x, l |-> y]) IN {t, Upper(t)} : x, y \in Halves}
            \cup UNION {Spoil(Str([m |-> x, l |-> x])) : x \in Halves}
TimeLists == {<<0>>, <<1>>, <<2>>, <<0, 0, 2>>}
Calls == {C(o, <<i>>) : o \in {"none", "fields"}, i \in 1..2} \cup {C("copy", <<1, 2>>), C("reparse", <<1, 2>>)} \cup {C("compare", <<i, j>>) : i, j \in 1..2}
         \cup {C("make", <<i, x, y>>) : i \in 1..2, x, y \in Halves} \cup (IF reg = <<Nil, Nil>> /\ seen = <<>> THEN {C("parse", <<1, t>>) : t \in Texts} ELSE {})
         \cup (IF reg = <<Nil, Nil>> THEN {C("time", <<ts>>) : ts \in TimeLists} ELSE {})
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= Depth /\ (reg # <<Nil, Nil>> => seen = <<>>)
(* theorems of the model *)
RoundTrip == \A i \in 1..2 : Parse(Str(reg[i])) = reg[i] /\ Parse(Upper(Str(reg[i]))) = reg[i] /\ Len(Str(reg[i])) = 36
Order == /\ Compare(reg[1], reg[2]) = -Compare(reg[2], reg[1])
         /\ (Compare(reg[1], reg[2]) = 0) = (reg[1] = reg[2])
Distinct == \A i, j \in 1..Len(seen) : seen[i] = seen[j] => i = j
MCView == <<reg, clk, seen>>
=============================================================================

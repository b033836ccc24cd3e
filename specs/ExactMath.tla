------------------------------ MODULE ExactMath ------------------------------
(* Property C21: Math's exact arithmetic, floor division and order on int (2 limbs) and long (4 limbs) *)
(* bit patterns.  `acc` is the last value computed; a refused operation leaves it as it was.           *)
EXTENDS Bits
VARIABLES acc, res, exc
vars == <<acc, res, exc>>
CONSTANTS Sizes
C(o, a) == [o |-> o, a |-> a]
Init == acc = <<0, 0>> /\ res = <<>> /\ exc = ""
New(k) == acc' = <<0, 0>> /\ res' = <<>> /\ exc' = ""
-----------------------------------------------------------------------------
Ret(v) == acc' = v /\ res' = <<>> /\ exc' = ""
Fail == UNCHANGED acc /\ res' = <<>> /\ exc' = "arith"
Fits(w, n) == Extend(SubSeq(w, 1, n), Len(w)) = w                 \* a wide value that n limbs can represent
Exact(w, n) == IF Fits(w, n) THEN Ret(SubSeq(w, 1, n)) ELSE Fail
Wide(a, n) == Extend(a, n)
One(n) == LSmall(1, n)
FloorDiv0(a, b) == LET n == Len(a) + 1 q == LDiv(Wide(a, n), Wide(b, n)) r == LRem(Wide(a, n), Wide(b, n))
                   IN SubSeq(IF r # LZero(n) /\ LNegative(a) # LNegative(b) THEN LSub(q, One(n)) ELSE q, 1, Len(a))
FloorDiv(a, b) == Ev2(FloorDiv0, a, b)
FloorMod0(a, b) == LET r == LRem(a, b) IN IF r # LZero(Len(a)) /\ LNegative(a) # LNegative(b) THEN LAdd(r, b) ELSE r
FloorMod(a, b) == Ev2(FloorMod0, a, b)
MinusOne(n) == LNot(LZero(n))
Do(o, a) ==
  CASE o = "new" -> New(0)
    [] o = "add" -> Exact(LAdd(Wide(a[1], Len(a[1]) + 1), Wide(a[2], Len(a[1]) + 1)), Len(a[1]))
    [] o = "subtract" -> Exact(LSub(Wide(a[1], Len(a[1]) + 1), Wide(a[2], Len(a[1]) + 1)), Len(a[1]))
    [] o = "multiply" -> Exact(LMul(Wide(a[1], 2 * Len(a[1])), Wide(a[2], 2 * Len(a[1]))), Len(a[1]))
    [] o = "increment" -> Exact(LAdd(Wide(a[1], Len(a[1]) + 1), One(Len(a[1]) + 1)), Len(a[1]))
    [] o = "decrement" -> Exact(LSub(Wide(a[1], Len(a[1]) + 1), One(Len(a[1]) + 1)), Len(a[1]))
    [] o = "negate" -> Exact(LNeg(Wide(a[1], Len(a[1]) + 1)), Len(a[1]))
    [] o = "toInt" -> Exact(a[1], 2)
    [] o = "floorDiv" -> IF a[2] = LZero(Len(a[2])) THEN Fail ELSE Ret(FloorDiv(a[1], a[2]))    \* minimum by -1 wraps
    [] o = "floorMod" -> IF a[2] = LZero(Len(a[2])) THEN Fail ELSE Ret(FloorMod(a[1], a[2]))
    [] o = "abs" -> Ret(LAbs(a[1]))                                                             \* of the minimum: wraps
    [] o = "max" -> Ret(IF LCompare(a[1], a[2]) >= 0 THEN a[1] ELSE a[2])
    [] o = "min" -> Ret(IF LCompare(a[1], a[2]) <= 0 THEN a[1] ELSE a[2])
Obs(e) == exc' = e.x /\ res' = e.r /\ e.s[1] = acc'
-----------------------------------------------------------------------------
Pow(n, i) == LShl(One(n), i)
Some(n) == LET base == {LZero(n), One(n), MinusOne(n), LSmall(3, n), LNeg(LSmall(3, n)), Pow(n, 16 * n - 1), LNot(Pow(n, 16 * n - 1)),
                        LAdd(Pow(n, 16 * n - 1), One(n)), Pow(n, 8 * n), LNeg(Pow(n, 8 * n)), LSub(Pow(n, 8 * n), One(n)), Pow(n, 8 * n - 1), LNeg(Pow(n, 8 * n - 1))}
           IN base \cup (IF n = 4 THEN {LSmall(2147483647, 4), Pow(4, 31), LNeg(Pow(4, 31)), LSub(LNeg(Pow(4, 31)), One(4))} ELSE {})
Binary == {"add", "subtract", "multiply", "floorDiv", "floorMod", "max", "min"}
Unary == {"increment", "decrement", "negate", "abs"}
Calls == UNION {{C(o, <<a, b>>) : o \in Binary, a \in Some(n), b \in Some(n)} \cup {C(o, <<a>>) : o \in Unary, a \in Some(n)} : n \in Sizes} \cup {C("toInt", <<a>>) : a \in Some(4)}
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TRUE
(* laws of the operators, over the whole sample *)
Laws(n) == \A a \in Some(n), b \in Some(n) :
             /\ b # LZero(n) => /\ LAdd(LMul(FloorDiv(a, b), b), FloorMod(a, b)) = a
                                /\ FloorMod(a, b) = LZero(n) \/ LNegative(FloorMod(a, b)) = LNegative(b)
                                /\ LCompareU(LAbs(FloorMod(a, b)), LAbs(b)) < 0
             /\ LET w == LMul(Wide(a, 2 * n), Wide(b, 2 * n)) IN Fits(w, n) /\ b # LZero(n) /\ ~(b = MinusOne(n) /\ a = Pow(n, 16 * n - 1)) => LDiv(SubSeq(w, 1, n), b) = a
             /\ LET s == LAdd(Wide(a, n + 1), Wide(b, n + 1)) IN Fits(s, n) <=> (LNegative(a) # LNegative(b) \/ LNegative(LAdd(a, b)) = LNegative(a))
ASSUME \A n \in Sizes : Laws(n)
MCView == Len(acc)
=============================================================================

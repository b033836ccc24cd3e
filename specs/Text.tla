-------------------------------- MODULE Text --------------------------------
(* Strings are sequences of character codes.  Shared text operators.       *)
EXTENDS Integers, Sequences, FiniteSets

Digit(d) == <<48 + d>>
RECURSIVE DecNat(_)
DecNat(n) == IF n < 10 THEN Digit(n) ELSE DecNat(n \div 10) \o Digit(n % 10)
Dec(n) == IF n >= 0 THEN DecNat(n) ELSE <<45>> \o DecNat(-n)

Quote == <<34>>
CommaSpace == <<44, 32>>
Comma == <<44>>
Sub(s, from, to) == SubSeq(s, from + 1, to)          \* half-open [from, to), 0-based

(* Concatenation of a sequence of texts with a separator *)
RECURSIVE JoinText(_, _)
JoinText(ts, sep) == IF ts = <<>> THEN <<>>
                     ELSE IF Len(ts) = 1 THEN ts[1]
                     ELSE ts[1] \o sep \o JoinText(Tail(ts), sep)

(* pat occurs in s at 0-based position p *)
OccursAt(s, pat, p) == p >= 0 /\ p + Len(pat) <= Len(s) /\ Sub(s, p, p + Len(pat)) = pat
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
(* first/last occurrence at a position >= from / <= from, or -1 *)
FirstAt(s, pat, from) == LET P == {p \in from..(Len(s) - Len(pat)) : OccursAt(s, pat, p)}
                         IN IF P = {} THEN -1 ELSE MinOf(P)
LastAt(s, pat, from) == LET P == {p \in 0..Min2(from, Len(s) - Len(pat)) : OccursAt(s, pat, p)}
                        IN IF P = {} THEN -1 ELSE MaxOf(P)
IndexOfVal(s, v, from) == LET P == {p \in from..(Len(s) - 1) : p >= 0 /\ s[p + 1] = v} IN IF P = {} THEN -1 ELSE MinOf(P)
LastIndexOfVal(s, v, from) == LET P == {p \in 0..Min2(from, Len(s) - 1) : s[p + 1] = v} IN IF P = {} THEN -1 ELSE MaxOf(P)
RemoveIdx(s, i) == Sub(s, 0, i) \o Sub(s, i + 1, Len(s))
InsertIdx(s, i, t) == Sub(s, 0, i) \o t \o Sub(s, i, Len(s))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Bool(b) == IF b THEN 1 ELSE 0
=============================================================================

------------------------------ MODULE CharSeq ------------------------------
(* Properties C11 and C12: two character buffers as character sequences.    *)
(* kind 0: StringBuilder, 1: StringBuffer, 2: its unsynchronised base.      *)
EXTENDS Text
VARIABLES bufs, kind, res, exc
vars == <<bufs, kind, res, exc>>
Slots == {1, 2}
CONSTANTS Kinds, MaxLen, MaxLen2, Slack      \* model: buffer kinds, length bounds; spare capacity considered

Init == bufs = [s \in Slots |-> <<>>] /\ kind \in Kinds /\ res = <<>> /\ exc = ""
New(k) == bufs' = [s \in Slots |-> <<>>] /\ kind' = k /\ res' = <<>> /\ exc' = ""
B(s) == bufs[s]
N(s) == Len(bufs[s])
Put(s, v) == bufs' = [bufs EXCEPT ![s] = v] /\ UNCHANGED kind
Ret(r) == res' = r /\ exc' = ""
Keep == UNCHANGED <<bufs, kind>>
Refuse == Keep /\ res' = <<>> /\ exc' = "index"
Edit(s, ok, v) == IF ok THEN Put(s, v) /\ Ret(<<>>) ELSE Refuse
(* a text handed over as a C string, as toString of a StringBuilder is, ends before its first null character *)
CText(t) == LET P == {k \in 1..Len(t) : t[k] = 0} IN IF P = {} THEN t ELSE SubSeq(t, 1, MinOf(P) - 1)
StringOf(t) == IF kind = 0 THEN CText(t) ELSE t

Make(s, n) == IF n < 0 THEN Keep /\ res' = <<>> /\ exc' = "negsize" ELSE Put(s, <<>>) /\ Ret(<<>>)
FromText(s, t) == Put(s, t) /\ Ret(<<>>)
AppendText(s, t) == Edit(s, TRUE, B(s) \o t)
AppendRange(s, t, f, e) == IF 0 <= f /\ f <= e /\ e <= Len(t) THEN AppendText(s, Sub(t, f, e)) ELSE Refuse
AppendPart(s, t, o, n) == IF 0 <= o /\ 0 <= n /\ n <= Len(t) - o THEN AppendText(s, Sub(t, o, o + n)) ELSE Refuse
Insert(s, i, t) == IF 0 <= i /\ i <= N(s) THEN Edit(s, TRUE, InsertIdx(B(s), i, t)) ELSE Refuse
InsertRange(s, i, t, f, e) == IF 0 <= f /\ f <= e /\ e <= Len(t) THEN Insert(s, i, Sub(t, f, e)) ELSE Refuse
InsertPart(s, i, t, o, n) == IF 0 <= o /\ 0 <= n /\ n <= Len(t) - o THEN Insert(s, i, Sub(t, o, o + n)) ELSE Refuse
Delete(s, f, e) == Edit(s, 0 <= f /\ f <= N(s) /\ f <= e, Sub(B(s), 0, f) \o Sub(B(s), Min2(e, N(s)), N(s)))
DeleteCharAt(s, i) == Edit(s, 0 <= i /\ i < N(s), RemoveIdx(B(s), i))
Replace(s, f, e, t) == Edit(s, 0 <= f /\ f <= N(s) /\ f <= e, Sub(B(s), 0, f) \o t \o Sub(B(s), Min2(e, N(s)), N(s)))
Reverse(s) == Edit(s, TRUE, Rev(B(s)))
SetCharAt(s, i, c) == Edit(s, 0 <= i /\ i < N(s), [k \in 1..N(s) |-> IF k = i + 1 THEN c ELSE B(s)[k]])
SetLength(s, n) == Edit(s, 0 <= n, [k \in 1..n |-> IF k <= N(s) THEN B(s)[k] ELSE 0])
(* both report the capacity afterwards *)
EnsureCapacity(s, n) == Keep /\ exc' = "" /\ \E c \in Max2(n, N(s))..(Max2(n, N(s)) + Slack) : res' = <<c>>
TrimToSize(s) == Keep /\ Ret(<<N(s)>>)
CharAt(s, i) == IF 0 <= i /\ i < N(s) THEN Keep /\ Ret(<<B(s)[i + 1]>>) ELSE Refuse
(* whether the empty text occurs is left to the buffer: -1 or a legal position *)
IndexOfFrom(s, t, i) ==
  Keep /\ exc' = "" /\
  IF t = <<>> THEN res' \in {<<-1>>, <<Min2(Max2(i, 0), N(s))>>} ELSE res' = <<FirstAt(B(s), t, Max2(i, 0))>>
(* searching backwards from i: a StringBuilder looks for an occurrence that lies at or before i entirely, a buffer for one that starts there *)
LastIndexOfFrom(s, t, i) ==
  Keep /\ exc' = "" /\
  IF t = <<>> THEN res' \in {<<-1>>, <<Min2(Max2(i, -1), N(s))>>}
  ELSE res' = <<IF i < 0 THEN -1 ELSE LastAt(B(s), t, IF kind = 0 THEN Min2(i, N(s) - 1) - Len(t) + 1 ELSE i)>>
LastIndexOf(s, t) == LastIndexOfFrom(s, t, N(s))
Substring(s, f, e) == IF 0 <= f /\ f <= e /\ e <= N(s) THEN Keep /\ Ret(Sub(B(s), f, e)) ELSE Refuse
ToText(s) == Keep /\ Ret(StringOf(B(s)))
GetValue(s) == Keep /\ Ret(CText(B(s)))
CodePointAt(s, i) == IF 0 <= i /\ i < N(s) THEN Keep /\ Ret(<<B(s)[i + 1]>>) ELSE Refuse
CodePointBefore(s, i) == IF 1 <= i /\ i <= N(s) THEN Keep /\ Ret(<<B(s)[i]>>) ELSE Refuse
CodePointCount(s, f, e) == IF 0 <= f /\ f <= e /\ e <= N(s) THEN Keep /\ Ret(<<e - f>>) ELSE Refuse
Copy(s, d) == Put(d, B(s)) /\ Ret(<<>>)
BoolText(b) == IF b = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
(* a value of any kind as text: boolean, character, int, long, and halves as double and as float *)
RealText(n, dbl) == LET m == IF n < 0 THEN -n ELSE n
                        half == IF m % 2 = 1 THEN <<53>> ELSE <<48>>
                    IN (IF n < 0 THEN <<45>> ELSE <<>>) \o Dec(m \div 2)
                       \o (IF dbl THEN <<46>> \o half \o [k \in 1..14 |-> 48] ELSE IF m % 2 = 1 THEN <<46>> \o half ELSE <<>>)
ValueText(k, v) == CASE k = 0 -> BoolText(IF v = 0 THEN 0 ELSE 1) [] k = 1 -> <<v>> [] k \in {2, 3} -> Dec(v) [] k = 4 -> RealText(v, TRUE) [] OTHER -> RealText(v, FALSE)
AppendCode(s, c) == IF c \in 0..127 THEN AppendText(s, <<c>>) ELSE Keep /\ res' = <<>> /\ exc' \in {"interrupted", "illegal"}

Do(o, a) ==
  CASE o = "new" -> New(a[1])
    [] o = "make" -> Make(a[1], a[2])
    [] o = "fromText" -> FromText(a[1], a[2])
    [] o \in {"append", "appendSeq", "appendChars"} -> AppendText(a[1], a[2])
    [] o = "appendChar" -> AppendText(a[1], <<a[2]>>)
    [] o \in {"appendInt", "appendLong"} -> AppendText(a[1], Dec(a[2]))
    [] o = "appendBool" -> AppendText(a[1], BoolText(a[2]))
    [] o = "appendRange" -> AppendRange(a[1], a[2], a[3], a[4])
    [] o = "appendPart" -> AppendPart(a[1], a[2], a[3], a[4])
    [] o = "appendOther" -> AppendText(a[1], StringOf(B(a[2])))
    [] o = "appendOtherRange" -> AppendRange(a[1], StringOf(B(a[2])), a[3], a[4])
    [] o \in {"insert", "insertSeq", "insertChars"} -> Insert(a[1], a[2], a[3])
    [] o = "insertChar" -> Insert(a[1], a[2], <<a[3]>>)
    [] o \in {"insertInt", "insertLong"} -> Insert(a[1], a[2], Dec(a[3]))
    [] o = "insertBool" -> Insert(a[1], a[2], BoolText(a[3]))
    [] o = "insertRange" -> InsertRange(a[1], a[2], a[3], a[4], a[5])
    [] o = "insertPart" -> InsertPart(a[1], a[2], a[3], a[4], a[5])
    [] o = "insertOther" -> Insert(a[1], a[2], StringOf(B(a[3])))
    [] o \in {"appendValue", "appendBox"} -> AppendText(a[1], ValueText(a[2], a[3]))
    [] o \in {"insertValue", "insertBox"} -> Insert(a[1], a[2], ValueText(a[3], a[4]))
    [] o \in {"appendInit", "appendBoxes"} -> AppendText(a[1], a[2])
    [] o = "appendBoxesPart" -> AppendPart(a[1], a[2], a[3], a[4])
    [] o = "insertBoxes" -> Insert(a[1], a[2], a[3])
    [] o = "insertBoxesPart" -> InsertPart(a[1], a[2], a[3], a[4], a[5])
    [] o = "setBox" -> SetCharAt(a[1], a[2], a[3])
    [] o = "appendCode" -> AppendCode(a[1], a[2])
    [] o \in {"fromInit", "fromSeq"} -> FromText(a[1], a[2])
    [] o = "fromBuffer" -> Put(a[2], StringOf(B(a[1]))) /\ Ret(<<>>)
    [] o = "delete" -> Delete(a[1], a[2], a[3])
    [] o = "deleteCharAt" -> DeleteCharAt(a[1], a[2])
    [] o = "replace" -> Replace(a[1], a[2], a[3], a[4])
    [] o = "reverse" -> Reverse(a[1])
    [] o = "setCharAt" -> SetCharAt(a[1], a[2], a[3])
    [] o = "setLength" -> SetLength(a[1], a[2])
    [] o = "ensureCapacity" -> EnsureCapacity(a[1], a[2])
    [] o = "trimToSize" -> TrimToSize(a[1])
    [] o = "charAt" -> CharAt(a[1], a[2])
    [] o = "indexOf" -> IndexOfFrom(a[1], a[2], 0)
    [] o = "indexOfFrom" -> IndexOfFrom(a[1], a[2], a[3])
    [] o = "lastIndexOf" -> LastIndexOf(a[1], a[2])
    [] o = "lastIndexOfFrom" -> LastIndexOfFrom(a[1], a[2], a[3])
    [] o = "substringFrom" -> Substring(a[1], a[2], N(a[1]))
    [] o = "substring" -> Substring(a[1], a[2], a[3])
    [] o = "toString" -> ToText(a[1])
    [] o = "getValue" -> GetValue(a[1])
    [] o = "codePointAt" -> CodePointAt(a[1], a[2])
    [] o = "codePointBefore" -> CodePointBefore(a[1], a[2])
    [] o = "codePointCount" -> CodePointCount(a[1], a[2], a[3])
    [] o \in {"copy", "assign"} -> Copy(a[1], a[2])

(* e.s: kind, then for each buffer the characters read one by one, length, toString (the text or a mark that it is <char sequence up to null>), capacity *)
Obs(e) == /\ res' = e.r /\ exc' = e.x /\ kind' = e.s[1] /\ bufs' = <<e.s[2][1], e.s[3][1]>>
          /\ \A s \in Slots : /\ e.s[s + 1][2] = Len(bufs'[s])
                              /\ e.s[s + 1][3] = (IF kind' = 0 THEN CText(bufs'[s]) ELSE bufs'[s])
                              /\ e.s[s + 1][4] >= Len(bufs'[s])

-----------------------------------------------------------------------------
C(o, a) == [o |-> o, a |-> a]
Idx(s) == -1..(N(s) + 1)
Texts == {<<>>, <<97>>, <<98, 97>>}
Chars == {0, 98}
Calls ==
  UNION {
    {C("make", <<s, n>>) : n \in {-1, 0, 1}} \cup {C("fromText", <<s, t>>) : t \in Texts} \cup
    {C(o, <<s, t>>) : o \in {"append", "appendSeq", "appendChars", "indexOf", "lastIndexOf"}, t \in Texts} \cup
    {C("appendChar", <<s, c>>) : c \in Chars} \cup {C("appendBool", <<s, 1>>), C("appendInt", <<s, -7>>), C("appendLong", <<s, 10>>)} \cup
    {C("appendRange", <<s, <<97, 98>>, f, e>>) : f \in -1..3, e \in -1..3} \cup
    {C("appendPart", <<s, <<97, 98>>, f, e>>) : f \in -1..3, e \in -1..3} \cup
    {C(o, <<s, d>>) : o \in {"appendOther", "copy", "assign"}, d \in Slots} \cup
    {C(o, <<s, i, <<98>>>>) : o \in {"insert", "insertSeq", "insertChars"}, i \in Idx(s)} \cup
    {C("insertChar", <<s, i, c>>) : i \in Idx(s), c \in Chars} \cup
    {C(o, <<s, k, v>>) : o \in {"appendValue", "appendBox"}, k \in {0, 1}, v \in {0, 98}} \cup {C("appendBox", <<s, k, -7>>) : k \in 2..5} \cup {C("appendValue", <<s, k, -15>>) : k \in 4..5} \cup
    {C(o, <<s, i, 1, 98>>) : o \in {"insertValue", "insertBox"}, i \in Idx(s)} \cup {C("insertBox", <<s, 0, k, 0>>) : k \in 2..5} \cup {C("insertValue", <<s, N(s), k, -15>>) : k \in 4..5} \cup
    {C(o, <<s, t>>) : o \in {"appendInit", "appendBoxes", "fromInit", "fromSeq"}, t \in Texts} \cup {C("fromBuffer", <<s, d>>) : d \in Slots} \cup
    {C("appendBoxesPart", <<s, <<97, 98>>, f, e>>) : f \in -1..3, e \in -1..3} \cup {C("insertBoxes", <<s, i, <<98>>>>) : i \in Idx(s)} \cup
    {C("insertBoxesPart", <<s, i, <<97, 98>>, f, e>>) : i \in {0, N(s), N(s) + 1}, f \in {-1, 0, 1}, e \in {0, 1, 2}} \cup
    {C("setBox", <<s, i, 98>>) : i \in Idx(s)} \cup (IF kind = 0 THEN {} ELSE {C("appendCode", <<s, c>>) : c \in {-1, 0, 97, 1114112}}) \cup
    {C("insertBool", <<s, i, 0>>) : i \in Idx(s)} \cup {C("insertInt", <<s, i, 0>>) : i \in Idx(s)} \cup
    {C("insertRange", <<s, i, <<97, 98>>, f, e>>) : i \in {0, N(s), N(s) + 1}, f \in {-1, 0, 1}, e \in {1, 2, 3}} \cup
    {C("insertPart", <<s, i, <<97, 98>>, f, e>>) : i \in {0, N(s), N(s) + 1}, f \in {-1, 0, 1}, e \in {0, 1, 2}} \cup
    {C("insertOther", <<s, i, d>>) : i \in Idx(s), d \in Slots} \cup
    {C("delete", <<s, f, e>>) : f \in Idx(s), e \in Idx(s)} \cup
    {C(o, <<s, i>>) : o \in {"deleteCharAt", "charAt", "codePointAt", "codePointBefore", "substringFrom"}, i \in Idx(s)} \cup
    {C("replace", <<s, f, e, t>>) : f \in Idx(s), e \in Idx(s), t \in {<<>>, <<97>>, <<98, 97>>}} \cup
    {C(o, <<s>>) : o \in {"reverse", "trimToSize", "toString"}} \cup
    {C("setCharAt", <<s, i, 98>>) : i \in Idx(s)} \cup {C("setLength", <<s, n>>) : n \in -1..MaxLen} \cup
    {C("ensureCapacity", <<s, n>>) : n \in {0, 40}} \cup
    {C(o, <<s, t, i>>) : o \in {"indexOfFrom", "lastIndexOfFrom"}, t \in Texts, i \in Idx(s)} \cup
    {C("substring", <<s, f, e>>) : f \in Idx(s), e \in Idx(s)} \cup {C("codePointCount", <<s, f, e>>) : f \in Idx(s), e \in Idx(s)}
    : s \in Slots }
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
MCView == <<bufs, kind>>
Bound == N(1) <= MaxLen /\ N(2) <= MaxLen2
RefusedKeeps == [][exc' # "" => UNCHANGED bufs]_vars
OneAtATime == [][\A s \in Slots : bufs'[s] # bufs[s] => \A t \in Slots \ {s} : bufs'[t] = bufs[t]]_vars
CharsKnown == \A s \in Slots : \A k \in 1..N(s) : B(s)[k] \in 0..255
=============================================================================

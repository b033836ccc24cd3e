--------------------------- MODULE SharedBuffer ---------------------------
(* Property C13: StringBuffers 1 and 2 shared by several threads.  Every   *)
(* call is one atomic edit or query of its buffer; a call that also reads  *)
(* the other buffer reads it in an atomic step of its own, before.         *)
EXTENDS Text
None == <<-1>>
S0 == [b |-> <<<<>>, <<>>>>, sn |-> [t \in 0..8 |-> None]]
Out(s, r) == {[s |-> s, r |-> r, x |-> ""]}
Refuse(s) == {[s |-> s, r |-> <<>>, x |-> "index"]}
Put(s, k, v) == [s EXCEPT !.b[k] = v]
Edit(s, k, ok, v) == IF ok THEN Out(Put(s, k, v), <<>>) ELSE Refuse(s)
BoolText(v) == IF v = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
(* the text of the other buffer as it was when this thread read it *)
WithOther(s, e, d, then(_, _)) ==
  IF s.sn[e.t] = None THEN {[s |-> [s EXCEPT !.sn[e.t] = s.b[d]], r |-> <<>>, x |-> "", more |-> TRUE]}
  ELSE then([s EXCEPT !.sn[e.t] = None], s.sn[e.t])
Outs(s, e) ==
  LET k == e.a[1]
      B == s.b[k]
      N == Len(B)
      cut(f, t, v) == Edit(s, k, 0 <= f /\ f <= N /\ f <= t, Sub(B, 0, f) \o v \o Sub(B, Min2(t, N), N))
  IN
  CASE e.o = "append" -> Out(Put(s, k, B \o e.a[2]), <<>>)
    [] e.o = "appendChar" -> Out(Put(s, k, B \o <<e.a[2]>>), <<>>)
    [] e.o \in {"appendInt", "appendLong"} -> Out(Put(s, k, B \o Dec(e.a[2])), <<>>)
    [] e.o = "appendBool" -> Out(Put(s, k, B \o BoolText(e.a[2])), <<>>)
    [] e.o = "insert" -> Edit(s, k, 0 <= e.a[2] /\ e.a[2] <= N, InsertIdx(B, e.a[2], e.a[3]))
    [] e.o = "insertChar" -> Edit(s, k, 0 <= e.a[2] /\ e.a[2] <= N, InsertIdx(B, e.a[2], <<e.a[3]>>))
    [] e.o = "insertInt" -> Edit(s, k, 0 <= e.a[2] /\ e.a[2] <= N, InsertIdx(B, e.a[2], Dec(e.a[3])))
    [] e.o = "delete" -> cut(e.a[2], e.a[3], <<>>)
    [] e.o = "replace" -> cut(e.a[2], e.a[3], e.a[4])
    [] e.o = "deleteCharAt" -> Edit(s, k, 0 <= e.a[2] /\ e.a[2] < N, RemoveIdx(B, e.a[2]))
    [] e.o = "reverse" -> Out(Put(s, k, Rev(B)), <<>>)
    [] e.o = "setCharAt" -> Edit(s, k, 0 <= e.a[2] /\ e.a[2] < N, [j \in 1..N |-> IF j = e.a[2] + 1 THEN e.a[3] ELSE B[j]])
    [] e.o = "setLength" -> Edit(s, k, 0 <= e.a[2], [j \in 1..e.a[2] |-> IF j <= N THEN B[j] ELSE 0])
    [] e.o \in {"ensureCapacity", "trimToSize"} -> Out(s, <<>>)
    [] e.o = "length" -> Out(s, <<N>>)
    [] e.o = "roomy" -> Out(s, <<1>>)
    [] e.o \in {"toString", "copyText"} -> Out(s, B)
    [] e.o = "charAt" -> IF 0 <= e.a[2] /\ e.a[2] < N THEN Out(s, <<B[e.a[2] + 1]>>) ELSE Refuse(s)
    [] e.o = "indexOf" -> Out(s, <<FirstAt(B, e.a[2], 0)>>)
    [] e.o = "lastIndexOf" -> Out(s, <<LastAt(B, e.a[2], N)>>)
    [] e.o = "substring" -> IF 0 <= e.a[2] /\ e.a[2] <= e.a[3] /\ e.a[3] <= N THEN Out(s, Sub(B, e.a[2], e.a[3])) ELSE Refuse(s)
    [] e.o = "substringFrom" -> IF 0 <= e.a[2] /\ e.a[2] <= N THEN Out(s, Sub(B, e.a[2], N)) ELSE Refuse(s)
    [] e.o = "codePointCount" -> IF 0 <= e.a[2] /\ e.a[2] <= e.a[3] /\ e.a[3] <= N THEN Out(s, <<e.a[3] - e.a[2]>>) ELSE Refuse(s)
    [] e.o \in {"appendOther", "appendOtherSeq"} -> WithOther(s, e, e.a[2], LAMBDA q, t : Out(Put(q, k, q.b[k] \o t), <<>>))
    [] e.o = "insertOther" -> WithOther(s, e, e.a[3], LAMBDA q, t : IF 0 <= e.a[2] /\ e.a[2] <= Len(q.b[k]) THEN Out(Put(q, k, InsertIdx(q.b[k], e.a[2], t)), <<>>) ELSE Refuse(q))
    [] e.o = "assign" -> WithOther(s, e, e.a[2], LAMBDA q, t : Out(Put(q, k, t), <<>>))
MayBlock(s, e) == FALSE
Marks(s, e) == {}
=============================================================================

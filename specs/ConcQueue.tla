----------------------------- MODULE ConcQueue ------------------------------
(* Property C08: three ConcurrentLinkedQueues (int, String, Integer) shared by *)
(* several threads.  The state keeps, per queue, what each thread added and    *)
(* nobody has taken yet, in order; a poll takes the first of some thread's.    *)
(* Elements are never 0: 0 is the default value a poll of an empty queue gives.*)
EXTENDS Text
S0 == [m \in 1..3 |-> [t \in 0..8 |-> <<>>]]
Out(s, r) == {[s |-> s, r |-> r, x |-> ""]}
More(s) == {[s |-> s, r |-> <<>>, x |-> "", more |-> TRUE]}
Held(q) == LET RECURSIVE sum(_)
               sum(t) == IF t > 8 THEN 0 ELSE Len(q[t]) + sum(t + 1)
           IN sum(0)
Heads(q) == {t \in 0..8 : q[t] # <<>>}
Drop(s, m, t) == [s EXCEPT ![m][t] = Tail(@)]
RECURSIVE Drain(_, _, _)      \* n polls by one undisturbed call: <<state, results>> pairs
Drain(s, m, rs) ==
  IF rs = <<>> THEN {s}
  ELSE IF rs[1] = 0 THEN IF Heads(s[m]) = {} THEN Drain(s, m, Tail(rs)) ELSE {}
  ELSE UNION {Drain(Drop(s, m, t), m, Tail(rs)) : t \in {t \in Heads(s[m]) : Head(s[m][t]) = rs[1]}}
Contended(e) == \E j \in 1..Len(e.w) : e.w[j] \in {"poll", "clear"}
Outs(s, e) ==
  LET m == e.a[1]
      q == s[m]
  IN
  CASE e.o \in {"add", "offer"} -> Out([s EXCEPT ![m][e.t] = Append(@, e.a[2])], <<1>>)
    (* only called while nothing else runs *)
    [] e.o = "addMany" -> Out([s EXCEPT ![m][e.t] = @ \o [j \in 1..(e.a[3] - e.a[2]) |-> e.a[2] + j - 1]], <<>>)
    [] e.o = "pollMany" -> UNION {Out(z, e.rr) : z \in Drain(s, m, e.rr)}
    (* nothing there; while other takers are under way a poll may also miss what they are moving *)
    [] e.o = "poll" -> UNION {Out(Drop(s, m, t), <<Head(q[t])>>) : t \in Heads(q)} \cup (IF Heads(q) = {} \/ Contended(e) THEN Out(s, <<0>>) ELSE {})
    [] e.o = "clear" -> UNION {More(Drop(s, m, t)) : t \in Heads(q)} \cup (IF Heads(q) = {} \/ Contended(e) THEN Out(s, <<>>) ELSE {})
    [] e.o = "size" -> IF e.ov = 1 /\ e.d = 1 THEN Out(s, e.rr) ELSE Out(s, <<Held(q)>>)
    [] e.o = "isEmpty" -> IF e.ov = 1 THEN Out(s, <<0>>) \cup Out(s, <<1>>) ELSE Out(s, <<Bool(Heads(q) = {})>>)
MayBlock(s, e) == FALSE
Marks(s, e) == {}
=============================================================================

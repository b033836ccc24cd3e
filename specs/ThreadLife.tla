---------------------------- MODULE ThreadLife ----------------------------
(* Property C10: the life of Thread objects 1..N.                          *)
(* phase: none (not created), new, started, running, done, gone (deleted). *)
EXTENDS Integers, Sequences, FiniteSets
N == 4
S0 == [k \in 1..N |-> [ph |-> "none", name |-> <<>>, joined |-> FALSE]]
Out(s, r) == {[s |-> s, r |-> r, x |-> ""]}
Ph(s, k) == s[k].ph
Go(s, k, p) == [s EXCEPT ![k].ph = p]
Data(p) == IF p = "running" THEN {0, 1, 2} ELSE IF p = "done" THEN {2} ELSE {0}
AliveIn(s, k) == IF s[k].joined \/ Ph(s, k) = "new" THEN {0} ELSE IF Ph(s, k) = "running" THEN {1} ELSE {0, 1}
Outs(s, e) ==
  IF e.o = "sleep" THEN Out(s, <<>>) ELSE
  LET k == e.a[1] IN
  CASE e.o = "make" -> IF Ph(s, k) = "none" THEN Out(Go(s, k, "new"), <<>>) ELSE {}
    [] e.o = "start" -> Out(IF Ph(s, k) = "new" THEN Go(s, k, "started") ELSE s, <<>>)
    (* joining a thread that was never started is left open: it may return at once or wait *)
    [] e.o = "join" -> IF Ph(s, k) = "done" THEN Out([s EXCEPT ![k].joined = TRUE], <<>>) ELSE IF Ph(s, k) = "new" THEN Out(s, <<>>) ELSE {}
    [] e.o = "joinFor" -> IF Ph(s, k) = "done" THEN Out([s EXCEPT ![k].joined = TRUE], <<>>) \cup (IF e.rm - e.m >= e.a[2] THEN Out(s, <<>>) ELSE {})
                          ELSE IF Ph(s, k) = "new" \/ e.rm - e.m >= e.a[2] THEN Out(s, <<>>) ELSE {}
    [] e.o = "isAlive" -> UNION {Out(s, <<v>>) : v \in AliveIn(s, k)}
    [] e.o = "read" -> UNION {Out(s, <<v>>) : v \in Data(Ph(s, k))}
    [] e.o = "setName" -> Out([s EXCEPT ![k].name = e.a[2]], <<>>)
    [] e.o = "getName" -> Out(s, s[k].name)
    [] e.o = "idIsMine" -> IF Ph(s, k) = "done" THEN Out(s, <<1, 1>>) ELSE UNION {Out(s, <<v, w>>) : v \in {0, 1}, w \in {0, 1}}
    [] e.o = "sameId" -> IF {Ph(s, k), Ph(s, e.a[2])} \subseteq {"started", "running"} /\ k # e.a[2] THEN Out(s, <<0>>)
                         ELSE UNION {Out(s, <<v>>) : v \in {0, 1}}
    (* deleting waits for the task *)
    [] e.o = "delete" -> IF Ph(s, k) \in {"new", "done"} THEN Out(Go(s, k, "gone"), <<>>) ELSE {}
MayBlock(s, e) == e.o = "join" /\ Ph(s, e.a[1]) = "new"
(* the task announces its beginning and its end; e.t: the thread it runs on, script threads have numbers below 100 *)
Marks(s, e) ==
  LET k == e.a[1] IN
  IF e.t < 100 THEN {}
  ELSE IF e.o = "begin" /\ Ph(s, k) = "started" THEN {Go(s, k, "running")}
  ELSE IF e.o = "end" /\ Ph(s, k) = "running" THEN {Go(s, k, "done")}
  ELSE {}
=============================================================================

------------------------- MODULE ThreadLifeDesign -------------------------
(* The life cycle explored on its own: callers and the tasks' own steps.   *)
EXTENDS ThreadLife
VARIABLES s, runs, last
vars == <<s, runs, last>>
Ks == 1..2
Calls == UNION {{[o |-> "start", a |-> <<k>>], [o |-> "join", a |-> <<k>>], [o |-> "isAlive", a |-> <<k>>], [o |-> "read", a |-> <<k>>], [o |-> "delete", a |-> <<k>>], [o |-> "make", a |-> <<k, 0, 0>>]} : k \in Ks}
Idle == [o |-> "", a |-> <<1>>, r |-> <<>>]
Init == s = S0 /\ runs = [k \in Ks |-> 0] /\ last = Idle
Do(c) == \E o \in Outs(s, c) : s' = o.s /\ last' = [o |-> c.o, a |-> c.a, r |-> o.r] /\ UNCHANGED runs
Task(k) == \E m \in {"begin", "end"} : \E t \in Marks(s, [o |-> m, t |-> 100 + k, a |-> <<k>>]) :
             s' = t /\ runs' = [runs EXCEPT ![k] = @ + (IF m = "begin" THEN 1 ELSE 0)] /\ last' = Idle
Next == (\E c \in Calls : (c.o = "start" => s[c.a[1]].ph \notin {"none", "gone"}) /\ (c.o \in {"isAlive", "read"} => s[c.a[1]].ph \notin {"none", "gone"}) /\ Do(c)) \/ \E k \in Ks : Task(k)
Spec == Init /\ [][Next]_vars /\ \A k \in Ks : WF_vars(Task(k))
AtMostOnce == \A k \in Ks : runs[k] <= 1
JoinSeesEnd == last.o = "join" /\ s[last.a[1]].joined => runs[last.a[1]] = 1 /\ s[last.a[1]].ph \in {"done", "gone"}
DeadAfterJoin == last.o = "isAlive" /\ s[last.a[1]].joined => last.r = <<0>>
RunsIfStarted == \A k \in Ks : [](s[k].ph = "started" => <>(s[k].ph = "done"))
=============================================================================

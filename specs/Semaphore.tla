----------------------------- MODULE Semaphore -----------------------------
(* Property C09: a counting semaphore.  The abstract state is the number of *)
(* available permits; every call is one atomic step, possible only when its *)
(* permits are there.                                                       *)
EXTENDS Integers, Sequences, FiniteSets
S0 == 0
Out(s, r) == {[s |-> s, r |-> r, x |-> ""]}
Take(p, k, r) == IF k <= p THEN Out(p - k, r) ELSE {}
Try(p, k) == IF k <= p THEN Out(p - k, <<1>>) ELSE Out(p, <<0>>)
(* false: too few permits at some moment of the call, and it waited the whole time *)
TryFor(p, k, ms, waited) == IF k <= p THEN Out(p - k, <<1>>) ELSE IF waited >= ms THEN Out(p, <<0>>) ELSE {}
Outs(p, e) ==
  CASE e.o = "make" -> Out(e.a[1], <<>>)
    [] e.o = "acquire" -> Take(p, 1, <<>>)
    [] e.o = "acquireN" -> Take(p, e.a[1], <<>>)
    [] e.o = "release" -> Out(p + 1, <<>>)
    [] e.o = "releaseN" -> Out(p + e.a[1], <<>>)
    [] e.o = "tryAcquire" -> Try(p, 1)
    [] e.o = "tryAcquireN" -> Try(p, e.a[1])
    [] e.o = "tryAcquireFor" -> TryFor(p, e.a[1], e.a[2], e.rm - e.m)
    [] e.o = "available" -> Out(p, <<p>>)
    [] e.o = "sleep" -> Out(p, <<>>)
MayBlock(p, e) == e.o \in {"acquire", "acquireN"} /\ Outs(p, e) = {}
Marks(p, e) == {}
=============================================================================

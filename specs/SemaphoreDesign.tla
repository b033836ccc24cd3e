-------------------------- MODULE SemaphoreDesign --------------------------
EXTENDS Semaphore
(* The design: threads call, their calls take effect in some order, and return. *)
CONSTANTS Threads, Start, Total       \* Total bounds the releases explored
VARIABLES avail, held, freed, pend     \* pend[t]: the call thread t is in, or Idle
Idle == [o |-> "idle", a |-> <<>>]
vars == <<avail, held, freed, pend>>
Calls == {[o |-> "acquireN", a |-> <<k>>] : k \in 1..2} \cup {[o |-> "tryAcquireN", a |-> <<k>>] : k \in 1..2} \cup {[o |-> "releaseN", a |-> <<k>>] : k \in 1..2}
Init == avail = Start /\ held = 0 /\ freed = 0 /\ pend = [t \in Threads |-> Idle]
Call(t) == pend[t] = Idle /\ \E c \in Calls : (c.o = "releaseN" => freed + c.a[1] <= Total) /\ pend' = [pend EXCEPT ![t] = c] /\ UNCHANGED <<avail, held, freed>>
Took(c, o) == IF c.o = "releaseN" \/ o.r = <<0>> THEN 0 ELSE c.a[1]
Effect(t) == pend[t] # Idle /\ \E o \in Outs(avail, pend[t]) :
                /\ avail' = o.s /\ held' = held + Took(pend[t], o)
                /\ freed' = freed + (IF pend[t].o = "releaseN" THEN pend[t].a[1] ELSE 0)
                /\ pend' = [pend EXCEPT ![t] = Idle]
Next == \E t \in Threads : Call(t) \/ Effect(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Effect(t))
Bounded == freed <= Total
Conservation == avail + held = Start + freed
NeverNegative == avail >= 0
(* a thread waits for ever only while its permits are not there *)
NoStranding == \A t \in Threads : [](pend[t] # Idle => <>(pend[t] = Idle \/ MayBlock(avail, pend[t])))
=============================================================================

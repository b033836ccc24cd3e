------------------------------ MODULE HeapTrace ------------------------------
(* Accepts the marks recorded from the real code. *)
EXTENDS Heap, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Restart(Ev.o, Ev.a) \/ Do(Ev.o, Ev.a)) /\ Obs(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)
==============================================================================

---- MODULE ArrayObjTrace ----
(* Accepts a recorded trace of the real code: every line must be a step of ArrayObj. Generated by tools/mkmodules.py *)
EXTENDS ArrayObj, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Do(Ev.o, Ev.a) /\ Obs(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)
====

#!/usr/bin/env python3
"""Writes the mechanical part of the specifications: for every state-machine module X the modules
XTrace (recorded trace accepted by the actions of X) and XGen (transition cover printed as scripts)."""
import os, sys
S = os.path.join(os.path.dirname(os.path.realpath(__file__)), "..", "specs")
MODS = dict(l.split(":", 1) for l in open(os.path.join(S, "modules.txt")).read().split("\n") if ":" in l)
for m, spec in MODS.items():
    consts, _, view = spec.strip().partition("|")
    open(os.path.join(S, m + "Trace.tla"), "w").write(f"""---- MODULE {m}Trace ----
(* Accepts a recorded trace of the real code: every line must be a step of {m}. Generated by tools/mkmodules.py *)
EXTENDS {m}, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TraceInit == Init /\\ l = 1
TraceNext == l <= Len(Trace) /\\ l' = l + 1 /\\ Do(Ev.o, Ev.a) /\\ Obs(Ev)
TraceSpec == TraceInit /\\ [][TraceNext]_<<vars, l>>
TraceAccepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)
====
""")
    open(os.path.join(S, m + "Trace.cfg"), "w").write("SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" +
        ("CONSTANTS\n" + "\n".join("  " + c.strip() for c in consts.split(";") if c.strip()) + "\n" if consts.strip() else ""))
    open(os.path.join(S, m + "Gen.tla"), "w").write(f"""---- MODULE {m}Gen ----
(* Transition cover: prints, for every transition TLC explores, the calls leading to it. Generated by tools/mkmodules.py *)
EXTENDS {m}, Json, TLC
VARIABLE hist
GenInit == Init /\\ hist = <<>>
GenNext == \\E c \\in Calls : Do(c.o, c.a) /\\ hist' = Append(hist, c)
GenSpec == GenInit /\\ [][GenNext]_<<vars, hist>>
GenView == <<{view.strip()}>>
Emit == PrintT((IF GenView' = GenView THEN "QUERY " ELSE "SCRIPT ") \\o ToJson(hist'))
====
""")

# Concurrent histories: a module X of specs/conc.txt defines S0 (initial abstract state), Outs(st, call) (what an
# atomic execution of the call may do: new state, result, exception; empty while it cannot run), MayBlock(st, call)
# (whether it may be left waiting for ever in st) and Marks(st, e) (states after an event seen inside the code).
for line in open(os.path.join(S, "conc.txt")).read().strip().split("\n"):
    m, _, consts = line.partition(":")
    open(os.path.join(S, m + "Lin.tla"), "w").write(f"""---- MODULE {m}Lin ----
(* Linearizability of recorded concurrent histories with respect to {m}. Generated by tools/mkmodules.py *)
EXTENDS {m}, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE)
NH == Len(Hist)
VARIABLES ln, li, lst, lun       \\* history, events consumed, abstract state, calls (by event) that have not taken effect yet
LH == Hist[ln].h
LE == LH[li + 1]
LinInit == ln \\in 1..NH /\\ li = 0 /\\ lst = S0 /\\ lun = {{}}
Consume == li' = li + 1 /\\ UNCHANGED ln
OnCall == LE.k = "call" /\\ Consume /\\ lun' = lun \\cup {{li + 1}} /\\ UNCHANGED lst
OnRet == LE.k = "ret" /\\ LE.c \\notin lun /\\ Consume /\\ UNCHANGED <<lst, lun>>
(* a pending call takes effect, no earlier than needed: just before a return or a mark *)
TakesEffect ==
          /\\ \\/ LE.k = "ret" /\\ LE.c \\in lun
             \\/ LE.k = "mark"
          /\\ \\E c \\in lun :
                /\\ LH[c].d = 1
                /\\ \\E o \\in Outs(lst, LH[c]) :
                     /\\ lst' = o.s
                     /\\ IF "more" \\in DOMAIN o THEN UNCHANGED lun        \\* a first step of a call that is not one atomic step
                        ELSE o.r = LH[c].rr /\\ o.x = LH[c].rx /\\ lun' = lun \\ {{c}}
          /\\ UNCHANGED <<ln, li>>
OnMark == LE.k = "mark" /\\ Consume /\\ lst' \\in Marks(lst, LE) /\\ UNCHANGED lun
OnStuck == LE.k = "stuck" /\\ Consume /\\ (\\A c \\in lun : MayBlock(lst, LH[c])) /\\ UNCHANGED <<lst, lun>>
LinNext == li < Len(LH) /\\ (OnCall \\/ OnRet \\/ TakesEffect \\/ OnMark \\/ OnStuck)
LinSpec == LinInit /\\ [][LinNext]_<<ln, li, lst, lun>>
ASSUME \\A k \\in 1..NH : TLCSet(k, 0)
Track == IF TLCGet(ln) < li THEN TLCSet(ln, li) ELSE TRUE
Report == (\\A k \\in 1..NH : TLCGet(k) = Len(Hist[k].h) \\/ PrintT(<<"REJECTED", k, TLCGet(k)>>)) /\\ PrintT(<<"CHECKED", NH>>)
====
""")
    open(os.path.join(S, m + "Lin.cfg"), "w").write("SPECIFICATION LinSpec\nCONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n" +
        ("CONSTANTS\n" + "\n".join("  " + c.strip() for c in consts.split(";") if c.strip()) + "\n" if consts.strip() else ""))

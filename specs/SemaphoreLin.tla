---- MODULE SemaphoreLin ----
(* Linearizability of recorded concurrent histories with respect to Semaphore. Generated by tools/mkmodules.py *)
EXTENDS Semaphore, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE)
NH == Len(Hist)
VARIABLES ln, li, lst, lun       \* history, events consumed, abstract state, calls (by event) that have not taken effect yet
LH == Hist[ln].h
LE == LH[li + 1]
LinInit == ln \in 1..NH /\ li = 0 /\ lst = S0 /\ lun = {}
Consume == li' = li + 1 /\ UNCHANGED ln
OnCall == LE.k = "call" /\ Consume /\ lun' = lun \cup {li + 1} /\ UNCHANGED lst
OnRet == LE.k = "ret" /\ LE.c \notin lun /\ Consume /\ UNCHANGED <<lst, lun>>
(* a pending call takes effect, no earlier than needed: just before a return or a mark *)
TakesEffect ==
          /\ \/ LE.k = "ret" /\ LE.c \in lun
             \/ LE.k = "mark"
          /\ \E c \in lun :
                /\ LH[c].d = 1
                /\ \E o \in Outs(lst, LH[c]) :
                     /\ lst' = o.s
                     /\ IF "more" \in DOMAIN o THEN UNCHANGED lun        \* a first step of a call that is not one atomic step
                        ELSE o.r = LH[c].rr /\ o.x = LH[c].rx /\ lun' = lun \ {c}
          /\ UNCHANGED <<ln, li>>
OnMark == LE.k = "mark" /\ Consume /\ lst' \in Marks(lst, LE) /\ UNCHANGED lun
OnStuck == LE.k = "stuck" /\ Consume /\ (\A c \in lun : MayBlock(lst, LH[c])) /\ UNCHANGED <<lst, lun>>
LinNext == li < Len(LH) /\ (OnCall \/ OnRet \/ TakesEffect \/ OnMark \/ OnStuck)
LinSpec == LinInit /\ [][LinNext]_<<ln, li, lst, lun>>
ASSUME \A k \in 1..NH : TLCSet(k, 0)
Track == IF TLCGet(ln) < li THEN TLCSet(ln, li) ELSE TRUE
Report == (\A k \in 1..NH : TLCGet(k) = Len(Hist[k].h) \/ PrintT(<<"REJECTED", k, TLCGet(k)>>)) /\ PrintT(<<"CHECKED", NH>>)
====

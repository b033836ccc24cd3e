---- MODULE BitSetGen ----
(* Transition cover: prints, for every transition TLC explores, the calls leading to it. Generated by tools/mkmodules.py *)
EXTENDS BitSet, Json, TLC
VARIABLE hist
GenInit == Init /\ hist = <<>>
GenNext == \E c \in Calls : Do(c.o, c.a) /\ hist' = Append(hist, c)
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
GenView == <<sets>>
Emit == PrintT((IF GenView' = GenView THEN "QUERY " ELSE "SCRIPT ") \o ToJson(hist'))
====

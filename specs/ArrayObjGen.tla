---- MODULE ArrayObjGen ----
(* Transition cover: prints, for every transition TLC explores, the calls leading to it. Generated by tools/mkmodules.py *)
EXTENDS ArrayObj, Json, TLC
VARIABLE hist
GenInit == Init /\ hist = <<>>
GenNext == \E c \in Calls : Do(c.o, c.a) /\ hist' = Append(hist, c)
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
GenView == <<arr, kind>>
Emit == PrintT((IF GenView' = GenView THEN "QUERY " ELSE "SCRIPT ") \o ToJson(hist'))
====

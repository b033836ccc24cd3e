------------------------------ MODULE HeapModel ------------------------------
(* Why the marks of Heap.tla tell a loss from a cache: a program of objects that own blocks and caches filled once.
   A run of the history gives some objects blocks and fills some caches, then destroys the objects; Lost blocks are
   forgotten on the way.  The marks grow at every run exactly when Lost > 0, whatever the caches do. *)
EXTENDS Heap
CONSTANTS Objs, MaxOwn, Caches, Lost
VARIABLES owned, filled, gone
mvars == <<vars, owned, filled, gone>>
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Total(f, S \ {x})
Held == Total(owned, Objs) + Cardinality(filled) + gone
MInit == Init /\ owned = [o \in Objs |-> 0] /\ filled = {} /\ gone = 0
Call(o) == /\ \E n \in 0..MaxOwn : owned' = [owned EXCEPT ![o] = n]
           /\ \E c \in SUBSET Caches : filled' = filled \cup c
           /\ UNCHANGED <<vars, gone>>
EndRun == /\ Len(marks) < Turns /\ owned' = [o \in Objs |-> 0] /\ gone' = gone + Lost /\ UNCHANGED <<filled, res, exc>>
          /\ marks' = Append(marks, Cardinality(filled) + gone + Lost)
MNext == (\E o \in Objs : Call(o)) \/ EndRun
MSpec == MInit /\ [][MNext]_mvars
Sound == Lost = 0 /\ Cardinality(Caches) < Turns - 3 => ~Growing(marks)
Complete == Lost > 0 /\ Len(marks) = Turns => Growing(marks)
Freed == (\A o \in Objs : owned[o] = 0) => Held = Cardinality(filled) + gone
==============================================================================

----------------------------- MODULE ApartDesign -----------------------------
(* Why keeping the work area of a call with the thread makes calls independent: each call writes its    *)
(* input to a work area, piece by piece, and reads its result from there.  With one area for all        *)
(* threads (Areas = 1) Independent fails; with one for each it holds under every interleaving.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Inputs, Pieces, Areas
VARIABLES input, area, pc, out
vars == <<input, area, pc, out>>
Area(t) == IF Areas = 1 THEN 1 ELSE t
Init == /\ input \in [Threads -> Inputs] /\ area = [t \in Threads |-> [k \in 1..Pieces |-> 0]]
        /\ pc = [t \in Threads |-> 0] /\ out = [t \in Threads |-> <<>>]
Write(t) == /\ pc[t] < Pieces /\ area' = [area EXCEPT ![Area(t)][pc[t] + 1] = input[t]]
            /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<input, out>>
Read(t) == /\ pc[t] \in Pieces..(2 * Pieces - 1) /\ out' = [out EXCEPT ![t] = Append(@, area[Area(t)][pc[t] - Pieces + 1])]
           /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<input, area>>
Again(t) == /\ pc[t] = 2 * Pieces /\ \E i \in Inputs : input' = [input EXCEPT ![t] = i]
            /\ pc' = [pc EXCEPT ![t] = 0] /\ out' = [out EXCEPT ![t] = <<>>] /\ UNCHANGED area
Next == \E t \in Threads : Write(t) \/ Read(t) \/ Again(t)
Spec == Init /\ [][Next]_vars
Independent == \A t \in Threads : \A k \in 1..Len(out[t]) : out[t][k] = input[t]
=============================================================================

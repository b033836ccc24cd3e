---- MODULE VectorGenK ----
(* VectorGen restricted to vectors (0) or to stacks (2) *)
EXTENDS VectorGen
GenInit0 == GenInit
GenInit2 == vecs = [s \in Slots |-> <<>>] /\ cap = [s \in Slots |-> Cap0] /\ inc = [s \in Slots |-> 0] /\ kind = 2 /\ res = <<>> /\ exc = "" /\ hist = <<>>
====

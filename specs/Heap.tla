-------------------------------- MODULE Heap ---------------------------------
(* Property C35: what the library allocates is given back.  One history of calls is run again and again in one
   process, every run on objects of its own which are destroyed before the next; `marks` are the heap blocks found
   held after each run.  Blocks may stay for the life of the program (a cache, a table filled on first use), so the
   first runs may leave more than they found; a history that goes on growing the heap loses blocks. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES marks, res, exc
CONSTANT Turns
vars == <<marks, res, exc>>
Init == marks = <<>> /\ res = <<>> /\ exc = ""
Growing(m) == Len(m) = Turns /\ \A k \in 3..Turns - 1 : m[k] < m[k + 1]        \* the first two runs fill the caches
Do(o, a) == /\ o = "mark" /\ marks' = Append(marks, a[1]) /\ res' = <<>> /\ exc' = ""
            /\ ~Growing(marks')
New(k) == marks' = <<>> /\ res' = <<>> /\ exc' = ""
Restart(o, a) == o = "new" /\ New(a)
Obs(e) == e.r = <<>> /\ e.x = ""
==============================================================================

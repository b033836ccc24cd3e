-------------------------------- MODULE Apart --------------------------------
(* Property C36: calls of one thread on objects of its own mean the same whatever other threads do.     *)
(* Every call of a scenario has a key.  Each thread's calls are first made alone, one thread after the  *)
(* other; what a key then returned is what it returns when the threads run side by side.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S0 == <<>>
Outs(s, e) ==
  IF e.a[1] \in DOMAIN s THEN {[s |-> s, r |-> s[e.a[1]][1], x |-> s[e.a[1]][2]]}
  ELSE IF e.t = 0 THEN {[s |-> s @@ (e.a[1] :> <<e.rr, e.rx>>), r |-> e.rr, x |-> e.rx]}
  ELSE {}
MayBlock(s, e) == FALSE
Marks(s, e) == {}
=============================================================================

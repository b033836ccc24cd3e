----------------------------- MODULE UuidShared -----------------------------
(* Property C23, several threads generating identifiers: every identifier is new.  The driver numbers them by  *)
(* their value, so that equal identifiers have equal numbers.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S0 == {}
Outs(s, e) == IF e.rr = <<>> \/ e.rr[1] \in s THEN {}
              ELSE {[s |-> s \cup {e.rr[1]}, r |-> <<e.rr[1], IF e.o = "time" THEN 1 ELSE 4, 2>>, x |-> ""]}
MayBlock(s, e) == FALSE
Marks(s, e) == {}
=============================================================================

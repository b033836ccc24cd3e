----------------------------- MODULE RandShared -----------------------------
(* Property C22, several threads drawing from one Random: every draw of the generator is one atomic   *)
(* step, and a call that draws more than once combines consecutive draws of its own.                  *)
EXTENDS Lcg, TLC
S0 == [seed |-> Scramble(<<0, 0, 0, 0>>), p |-> [t \in 0..8 |-> <<>>]]
Out(s, r) == {[s |-> s, r |-> r, x |-> ""]}
More(s, t, seed) == {[s |-> [s EXCEPT !.seed = seed, !.p[t] = Append(@, seed)], r |-> <<>>, x |-> "", more |-> TRUE]}
Done(s, t, seed, r) == Out([s EXCEPT !.seed = seed, !.p[t] = <<>>], r)
Outs0(s, e, n) ==                                                \* n: the seed a draw now leads to
  LET t == e.t p == s.p[e.t] IN
  CASE e.o = "setSeed" -> Out([s EXCEPT !.seed = Scramble(e.a[1])], <<>>)
    [] e.o = "nextInt" -> Done(s, t, n, <<Top(n, 32)>>)
    [] e.o = "nextBoolean" -> Done(s, t, n, <<TopInt(n, 1)>>)
    [] e.o = "nextFloat" -> Done(s, t, n, <<TopInt(n, 24)>>)
    [] e.o = "nextBelow" -> IF e.a[1] <= 0 THEN {[s |-> s, r |-> <<>>, x |-> "interrupted"]}
                            ELSE IF Below(n, e.a[1]) < 0 THEN More(s, t, n) ELSE Done(s, t, n, <<Below(n, e.a[1])>>)
    [] e.o = "nextLong" -> IF p = <<>> THEN More(s, t, n) ELSE Done(s, t, n, <<LongDraw(p[1], n)[1]>>)
    [] e.o = "nextDouble" -> IF p = <<>> THEN More(s, t, n) ELSE Done(s, t, n, <<DoubleDraw(p[1], n)[1]>>)
Outs(s, e) == Ev3(Outs0, s, e, Step(s.seed))
MayBlock(s, e) == FALSE
Marks(s, e) == {}
=============================================================================

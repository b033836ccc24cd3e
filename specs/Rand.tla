-------------------------------- MODULE Rand --------------------------------
(* Property C22, one thread: two Random objects.  `gens` holds their seeds and the key of a pending second Gaussian *)
(* number; `memo` what each Gaussian pair turned out to be, by the seed it was drawn from.                          *)
EXTENDS Lcg, TLC
VARIABLES gens, memo, res, exc
vars == <<gens, memo, res, exc>>
CONSTANTS Seeds, Depth
C(o, a) == [o |-> o, a |-> a]
SeedSet == {<<1, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, <<1234, 0, 0, 32768>>}
Fresh(v) == [seed |-> Scramble(v), key |-> <<>>]
Zero4 == <<0, 0, 0, 0>>
New(k) == gens' = <<Fresh(Zero4), Fresh(Zero4)>> /\ memo' = <<>> /\ res' = <<>> /\ exc' = ""
Init == gens = <<Fresh(Zero4), Fresh(Zero4)>> /\ memo = <<>> /\ res = <<>> /\ exc = ""
-----------------------------------------------------------------------------
S(i) == gens[i].seed
Put(i, g) == gens' = [gens EXCEPT ![i] = g] /\ res' = <<>> /\ exc' = "" /\ UNCHANGED memo
Draw(i, d) == gens' = [gens EXCEPT ![i].seed = d[2]] /\ res' = <<d[1]>> /\ exc' = "" /\ UNCHANGED memo     \* d: value, new seed
Fail(x) == res' = <<>> /\ exc' = x /\ UNCHANGED <<gens, memo>>
At(i, n) == Draw(i, <<Top(Step(S(i)), n), Step(S(i))>>)
AtInt(i, n) == Draw(i, <<TopInt(Step(S(i)), n), Step(S(i))>>)
Do(o, a) ==
  CASE o = "new" -> New(0)
    [] o = "make" -> Put(a[1], Fresh(a[2]))
    [] o = "setSeed" -> Put(a[1], Fresh(a[2]))
    [] o = "copy" -> Put(a[1], gens[a[2]])
    [] o = "nextInt" -> At(a[1], 32)
    [] o = "nextBoolean" -> AtInt(a[1], 1)
    [] o = "nextFloat" -> AtInt(a[1], 24)
    [] o = "nextBelow" -> IF a[2] <= 0 THEN Fail("interrupted") ELSE Draw(a[1], Bounded(S(a[1]), a[2]))
    [] o = "nextLong" -> Draw(a[1], NextLong(S(a[1])))
    [] o = "nextDouble" -> Draw(a[1], NextDouble(S(a[1])))
    [] o = "nextBytes" -> Draw(a[1], NextBytes(S(a[1]), a[2]))
    [] o = "nextString" -> Draw(a[1], NextString(S(a[1]), a[2]))
    [] o = "gaussian" -> TRUE
Known(k) == \E m \in DOMAIN memo : memo[m].k = k
Entry(k) == memo[CHOOSE m \in DOMAIN memo : memo[m].k = k]
None == <<>>
Merge(k, first, second) ==                                        \* the pair of seed k, as far as known
    IF Known(k) THEN LET e == Entry(k) n == [k |-> k, v |-> IF first # None THEN first ELSE e.v, w |-> IF second # None THEN second ELSE e.w]
                     IN (first = None \/ e.v \in {None, first}) /\ (second = None \/ e.w \in {None, second})
                        /\ memo' = [m \in DOMAIN memo |-> IF memo[m].k = k THEN n ELSE memo[m]]
    ELSE memo' = Append(memo, [k |-> k, v |-> first, w |-> second])
(* Gaussian values: finite, of plausible size, and functions of the seed they are drawn from *)
Gauss(e) == LET i == e.a[1] g == gens[i] IN
            /\ e.x = "" /\ res' = e.r /\ exc' = "" /\ e.r[2] = 1
            /\ IF g.key = None THEN gens' = [gens EXCEPT ![i] = [seed |-> Polar(S(i)), key |-> S(i)]] /\ Merge(S(i), e.r[1], None)
               ELSE gens' = [gens EXCEPT ![i].key = None] /\ Merge(g.key, None, e.r[1])
Ahead(s) == <<Top(Step(s), 32), Top(Step(Step(s)), 32)>>
Obs(e) == /\ IF e.o = "gaussian" THEN Gauss(e) ELSE exc' = e.x /\ res' = e.r
          /\ e.s = <<Ahead(gens'[1].seed), Ahead(gens'[2].seed)>>
-----------------------------------------------------------------------------
Bounds == {0, -1, 1, 2, 3, 10, 62, 1073741824, 1073741825, 2147483647}
Calls == UNION {{C("make", <<i, v>>) : v \in Seeds} \cup {C("setSeed", <<i, v>>) : v \in Seeds} \cup {C("copy", <<i, 3 - i>>)} \cup
                {C(o, <<i>>) : o \in {"nextInt", "nextBoolean", "nextFloat", "nextLong", "nextDouble"}} \cup {C("nextBelow", <<i, b>>) : b \in Bounds} \cup
                {C(o, <<i, n>>) : o \in {"nextBytes", "nextString"}, n \in {0, 1, 3}} : i \in 1..2}
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= Depth
InRange == /\ \A i \in 1..2 : Step(S(i)) = LAdd(LMul(S(i), Factor), <<11, 0, 0>>)
           /\ \A i \in 1..2 : \A j \in 1..3 : gens[i].seed[j] \in 0..65535
           /\ \A i \in 1..2 : \A b \in Bounds : b <= 0 \/ Bounded(S(i), b)[1] \in 0..(b - 1)
           /\ \A i \in 1..2 : LET d == NextDouble(S(i))[1] IN d[4] < 32                     \* below 2^53
MCView == gens
=============================================================================

------------------------------ MODULE ConcMap -------------------------------
(* Property C07: three ConcurrentHashMaps (int->int, String->String,         *)
(* Integer->int) shared by several threads.  Every call is one atomic step on *)
(* a finite function; absent values are reported as the default value 0.     *)
EXTENDS Text
Empty == [k \in {} |-> 0]
S0 == [m \in 1..3 |-> Empty]
Out(s, r) == {[s |-> s, r |-> r, x |-> ""]}
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
RECURSIVE Sorted(_)
Sorted(K) == IF K = {} THEN <<>> ELSE LET k == MinOf(K) IN <<k>> \o Sorted(K \ {k})
Keyed(f) == LET K == Sorted(DOMAIN f) IN [j \in 1..Len(K) |-> <<K[j], f[K[j]]>>]
Outs(s, e) ==
  LET m == e.a[1]
      f == s[m]
      D == DOMAIN f
      k == e.a[2]
      has == k \in D
      put(g, r) == Out([s EXCEPT ![m] = g], r)
      old == <<IF has THEN f[k] ELSE 0>>
  IN
  CASE e.o = "put" -> put(With(f, k, e.a[3]), <<>>)
    [] e.o = "putIfAbsent" -> IF has THEN Out(s, old) ELSE put(With(f, k, e.a[3]), <<0>>)
    [] e.o = "get" -> Out(s, old)
    [] e.o = "getOrDefault" -> Out(s, IF has THEN old ELSE <<e.a[3]>>)
    [] e.o \in {"containsKey", "find"} -> Out(s, <<Bool(has)>>)
    [] e.o = "containsValue" -> Out(s, <<Bool(\E x \in D : f[x] = e.a[2])>>)
    [] e.o = "remove" -> IF has THEN put(Without(f, k), old) ELSE Out(s, old)
    [] e.o = "removeKV" -> IF has /\ f[k] = e.a[3] THEN put(Without(f, k), <<1>>) ELSE Out(s, <<0>>)
    [] e.o = "replace" -> IF has THEN put(With(f, k, e.a[3]), old) ELSE Out(s, old)
    [] e.o = "replaceKV" -> IF has /\ f[k] = e.a[3] THEN put(With(f, k, e.a[4]), <<1>>) ELSE Out(s, <<0>>)
    [] e.o = "clear" -> put(Empty, <<>>)
    [] e.o = "reinitialize" -> put(Empty, <<>>)
    (* the size is only promised while no other call is under way *)
    [] e.o = "size" -> IF e.ov = 1 /\ e.d = 1 THEN Out(s, e.rr) ELSE Out(s, <<Cardinality(D)>>)
    [] e.o = "isEmpty" -> IF e.ov = 1 THEN Out(s, <<0>>) \cup Out(s, <<1>>) ELSE Out(s, <<Bool(D = {})>>)
    [] e.o \in {"iterate", "copyOf"} -> Out(s, Keyed(f))
    (* the callback stops the walk at its n-th entry: any n entries, in any order (the driver sorts them) *)
    [] e.o = "forEach" -> IF e.a[2] >= Cardinality(D) THEN Out(s, Keyed(f))
                          ELSE IF e.d = 0 THEN Out(s, <<>>)
                          ELSE LET E == {e.rr[j][1] : j \in 1..Len(e.rr)}
                               IN IF E \subseteq D /\ Cardinality(E) = Max2(e.a[2], 1) THEN Out(s, Keyed([x \in E |-> f[x]])) ELSE {}
MayBlock(s, e) == FALSE
Marks(s, e) == {}
=============================================================================

------------------------------- MODULE Base64 --------------------------------
(* Property C16.  `last` holds the last encoding or decoding produced; the *Last calls feed it back.    *)
(* Encoder e = <<scheme, padded, line, separator>>: scheme 0 basic, 1 URL, 2 MIME, 3 MIME with the given *)
(* line length and separator.  Decoder d: 0 basic, 1 URL, 2 MIME.                                        *)
EXTENDS Text
VARIABLES last, res, exc
vars == <<last, res, exc>>
CONSTANTS Bytes, Chars, MaxLen, MaxLen2
Init == last = <<>> /\ res = <<>> /\ exc = ""
New(k) == last' = <<>> /\ res' = <<>> /\ exc' = ""
-----------------------------------------------------------------------------
Alphabet(u, v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4
                  ELSE IF u THEN (IF v = 62 THEN 45 ELSE 95) ELSE IF v = 62 THEN 43 ELSE 47
TableOf(u) == [c \in 0..255 |-> IF \E v \in 0..63 : Alphabet(u, v) = c THEN CHOOSE v \in 0..63 : Alphabet(u, v) = c ELSE -1]
Std == TableOf(FALSE)
Url == TableOf(TRUE)
Value(d, c) == IF d = 1 THEN Url[c] ELSE Std[c]
Pow64(k) == CASE k = 0 -> 1 [] k = 1 -> 64 [] k = 2 -> 4096 [] k = 3 -> 262144
(* RFC 4648: three bytes make a 24-bit group, read as four sextets; missing bytes count as zero *)
ByteAt(bs, i) == IF i < Len(bs) THEN bs[i + 1] ELSE 0
Sextet(bs, k) == LET g == 3 * (k \div 4)
                     n == 65536 * ByteAt(bs, g) + 256 * ByteAt(bs, g + 1) + ByteAt(bs, g + 2)
                 IN (n \div Pow64(3 - (k % 4))) % 64
Sextets(bs) == (4 * Len(bs) + 2) \div 3                          \* ceil(4n/3) significant digits
Digits(u, p, bs) == LET n == Sextets(bs)
                    IN [k \in 1..n |-> Alphabet(u, Sextet(bs, k - 1))] \o (IF p THEN [k \in 1..((4 - (n % 4)) % 4) |-> 61] ELSE <<>>)
(* RFC 2045: full lines of l characters, separated, none at the end *)
Broken(t, l, sep) == IF l >= Len(t) THEN t ELSE JoinText([k \in 1..((Len(t) + l - 1) \div l) |-> Sub(t, l * (k - 1), Min2(l * k, Len(t)))], sep)
SepOk(sep) == \A k \in 1..Len(sep) : Std[sep[k]] = -1 /\ sep[k] # 61
EncOk(e) == e[1] = 3 => SepOk(e[4])
Encoded(e, bs) == LET t == Digits(e[1] = 1, e[2] = 1, bs)
                      l == IF e[1] = 2 THEN 76 ELSE IF e[1] = 3 /\ e[3] > 0 THEN 4 * (e[3] \div 4) ELSE 0
                  IN IF l = 0 THEN t ELSE Broken(t, l, IF e[1] = 2 THEN <<13, 10>> ELSE e[4])
(* Decoding: digits up to the first '=' or the end; MIME drops what is not in the alphabet *)
FirstPad(t) == LET k == IndexOfVal(t, 61, 0) IN IF k < 0 THEN Len(t) ELSE k
Body(d, t) == SelectSeq(Sub(t, 0, FirstPad(t)), LAMBDA c : Value(d, c) >= 0)
Rest(t) == Sub(t, FirstPad(t), Len(t))
Legal(d, t) ==
  LET m == Len(Body(d, t)) % 4
      p == Rest(t)
      q == IF m = 2 THEN 2 ELSE 1                                \* padding characters asked for
      tail == Sub(p, q, Len(p))
  IN /\ d = 2 \/ Len(Body(d, t)) = FirstPad(t)
     /\ m # 1
     /\ p # <<>> => /\ m # 0
                    /\ Len(p) >= q /\ \A k \in 1..q : p[k] = 61
                    /\ IF d = 2 THEN \A k \in 1..Len(tail) : Value(d, tail[k]) < 0 ELSE tail = <<>>
Decoded(d, t) ==
  LET b == Body(d, t)
      v(k) == IF k < Len(b) THEN Value(d, b[k + 1]) ELSE 0
      g(i) == 4 * (i \div 3)
      n(i) == 262144 * v(g(i)) + 4096 * v(g(i) + 1) + 64 * v(g(i) + 2) + v(g(i) + 3)
  IN [i \in 1..((6 * Len(b)) \div 8) |-> (n(i - 1) \div (CASE (i - 1) % 3 = 0 -> 65536 [] (i - 1) % 3 = 1 -> 256 [] (i - 1) % 3 = 2 -> 1)) % 256]
-----------------------------------------------------------------------------
Give(r) == last' = r /\ res' = r /\ exc' = ""
Fail(x) == UNCHANGED last /\ res' = <<>> /\ exc' = x
Filled(r, n) == r \o [k \in 1..(n - Len(r)) |-> 42]
(* the n-byte target, '*' before the call, comes back as <<count or -1, contents>>; it is untouched when too small *)
Into(r, n) == /\ UNCHANGED last /\ exc' = ""
              /\ res' = IF Len(r) <= n THEN <<Len(r), Filled(r, n)>> ELSE <<-1, Filled(<<>>, n)>>
Do(o, a) ==
  CASE o = "new" -> New(0)
    [] o = "encode" -> IF EncOk(a[1]) THEN Give(Encoded(a[1], a[2])) ELSE Fail("illegal")
    [] o = "encodeText" -> IF EncOk(a[1]) THEN Give(Encoded(a[1], a[2])) ELSE Fail("illegal")
    [] o = "encodeLast" -> IF EncOk(a[1]) THEN Give(Encoded(a[1], last)) ELSE Fail("illegal")
    [] o = "decode" -> IF Legal(a[1], a[2]) THEN Give(Decoded(a[1], a[2])) ELSE Fail("illegal")
    [] o = "decodeText" -> IF Legal(a[1], a[2]) THEN Give(Decoded(a[1], a[2])) ELSE Fail("illegal")
    [] o = "decodeLast" -> IF Legal(a[1], last) THEN Give(Decoded(a[1], last)) ELSE Fail("illegal")
    [] o = "encodeInto" -> IF EncOk(a[1]) THEN Into(Encoded(a[1], a[2]), a[3]) ELSE Fail("illegal")
    [] o = "decodeInto" -> IF Legal(a[1], a[2]) THEN Into(Decoded(a[1], a[2]), a[3])
                           ELSE UNCHANGED last /\ \/ res' = <<>> /\ exc' = "illegal"
                                                  \/ res' = <<-1, Filled(<<>>, a[3])>> /\ exc' = ""
Obs(e) == last' = e.s[1] /\ res' = e.r /\ exc' = e.x
-----------------------------------------------------------------------------
C(o, a) == [o |-> o, a |-> a]
Encs == {<<0, 1, 0, <<>>>>, <<0, 0, 0, <<>>>>, <<1, 1, 0, <<>>>>, <<1, 0, 0, <<>>>>, <<2, 1, 0, <<>>>>, <<2, 0, 0, <<>>>>} \cup
        {<<3, p, l, s>> : p \in {0, 1}, l \in {-1, 0, 3, 4, 7, 8}, s \in {<<10>>, <<>>}} \cup {<<3, 1, 4, <<s>>>> : s \in {65, 61, 45, 200}}
Data == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen2}
Calls == IF last = <<>> THEN {C("encode", <<e, b>>) : e \in Encs, b \in Data} \cup {C(o, <<d, t>>) : o \in {"decode", "decodeText"}, d \in 0..2, t \in Texts} \cup
                             {C("encodeInto", <<e, <<255, 0, 62, 97>>, n>>) : e \in Encs, n \in {5, 6, 8, 9}} \cup {C("encodeText", <<<<0, 1, 0, <<>>>>, b>>) : b \in Data} \cup
                             {C("decodeInto", <<d, t, n>>) : d \in 0..2, t \in {<<65, 66, 67>>, <<65, 66, 67, 61>>, <<65, 66, 61, 61>>, <<65, 66, 61>>, <<65>>, <<10, 65, 66>>}, n \in 0..3}
         ELSE {C("decodeLast", <<d>>) : d \in 0..2}
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TRUE
(* what every encoder produces, the matching decoder turns back into the original *)
Matching(e) == IF e[1] = 0 THEN {0, 2} ELSE IF e[1] = 1 THEN {1} ELSE {2}
RoundTrip == \A e \in Encs : EncOk(e) =>
               \A b \in Data : \A d \in Matching(e) : LET t == Encoded(e, b) IN Legal(d, t) /\ Decoded(d, t) = b
(* a legal text and the encoding of what it decodes to agree up to padding and the unused low bits *)
Canonical == \A t \in Texts : Legal(0, t) => LET c == Digits(FALSE, TRUE, Decoded(0, t)) IN Legal(0, c) /\ Decoded(0, c) = Decoded(0, t) /\ Len(Body(0, c)) = Len(Body(0, t))
LinesOk == \A b \in Data : \A l \in {4, 8} : LET t == Encoded(<<3, 1, l, <<10>>>>, b) IN Len(t) > 0 => t[Len(t)] # 10 /\ \A k \in 1..Len(t) : (t[k] = 10) <=> (k % (l + 1) = 0)
Laws == RoundTrip /\ Canonical /\ LinesOk
MCView == last
=============================================================================

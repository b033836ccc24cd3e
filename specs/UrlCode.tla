------------------------------ MODULE UrlCode --------------------------------
(* Property C17: URLEncoder and URLDecoder on byte strings.  `last` holds the last result. *)
EXTENDS Text
VARIABLES last, res, exc
vars == <<last, res, exc>>
CONSTANTS Bytes, Chars, MaxLen, MaxLen2
Init == last = <<>> /\ res = <<>> /\ exc = ""
New(k) == last' = <<>> /\ res' = <<>> /\ exc' = ""
-----------------------------------------------------------------------------
Plain == (48..57) \cup (65..90) \cup (97..122) \cup {45, 95, 46, 126}
Hex(v) == IF v < 10 THEN 48 + v ELSE 87 + v
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
Code(c) == IF c \in Plain THEN <<c>> ELSE IF c = 32 THEN <<43>> ELSE <<37, Hex(c \div 16), Hex(c % 16)>>
Encoded(t) == JoinText([k \in 1..Len(t) |-> Code(t[k])], <<>>)
(* positions of the escapes: a '%' that is not inside an earlier escape *)
RECURSIVE WellFormed(_)
WellFormed(t) == IF t = <<>> THEN TRUE
                 ELSE IF t[1] # 37 THEN WellFormed(Tail(t))
                 ELSE Len(t) >= 3 /\ HexVal(t[2]) >= 0 /\ HexVal(t[3]) >= 0 /\ WellFormed(SubSeq(t, 4, Len(t)))
RECURSIVE Decoded(_)
Decoded(t) == IF t = <<>> THEN <<>>
              ELSE IF t[1] = 37 THEN <<16 * HexVal(t[2]) + HexVal(t[3])>> \o Decoded(SubSeq(t, 4, Len(t)))
              ELSE <<IF t[1] = 43 THEN 32 ELSE t[1]>> \o Decoded(Tail(t))
Upper(t) == [k \in 1..Len(t) |-> IF t[k] \in 97..122 THEN t[k] - 32 ELSE t[k]]
Known(name) == Upper(name) = <<85, 84, 70, 45, 56>>                \* "UTF-8" in any letter case
-----------------------------------------------------------------------------
Give(r) == last' = r /\ res' = r /\ exc' = ""
Fail(x) == UNCHANGED last /\ res' = <<>> /\ exc' = x
(* what a malformed escape decodes to is left open; it may be refused *)
Dec1(t) == IF WellFormed(t) THEN Give(Decoded(t)) ELSE exc' \in {"", "illegal"}
Do(o, a) ==
  CASE o = "new" -> New(0)
    [] o = "encode" -> Give(Encoded(a[1]))
    [] o = "encodeAs" -> IF Known(a[2]) THEN Give(Encoded(a[1])) ELSE Fail("encoding")
    [] o = "encodeLast" -> Give(Encoded(last))
    [] o = "decode" -> Dec1(a[1])
    [] o = "decodeAs" -> IF Known(a[2]) THEN Dec1(a[1]) ELSE Fail("encoding")
    [] o = "decodeLast" -> Dec1(last)
Obs(e) == res' = e.r /\ last' = e.s[1] /\ exc' = e.x
-----------------------------------------------------------------------------
C(o, a) == [o |-> o, a |-> a]
Texts == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Names == {<<85, 84, 70, 45, 56>>, <<117, 116, 102, 45, 56>>, <<85, 116, 70, 45, 56>>, <<85, 84, 70, 56>>, <<>>, <<85, 84, 70, 45, 56, 32>>, <<85, 84, 70, 45, 49, 54>>, <<85, 84, 70, 45>>}
Escapes == {t \in UNION {[1..n -> Chars] : n \in 0..MaxLen2} : WellFormed(t)}
Calls == IF last = <<>> THEN {C("encode", <<t>>) : t \in Texts \cup {<<c>> : c \in 0..255}} \cup {C("decode", <<t>>) : t \in Escapes} \cup
                             {C(o, <<<<97, 43>>, n>>) : o \in {"encodeAs", "decodeAs"}, n \in Names}
         ELSE {C("decodeLast", <<>>), C("encodeLast", <<>>)} \cap (IF WellFormed(last) THEN {C("decodeLast", <<>>), C("encodeLast", <<>>)} ELSE {C("encodeLast", <<>>)})
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == Len(last) <= 9
Laws == /\ \A t \in Texts \cup {<<c>> : c \in 0..255} : WellFormed(Encoded(t)) /\ Decoded(Encoded(t)) = t
                  /\ \A k \in 1..Len(Encoded(t)) : Encoded(t)[k] \in Plain \cup {37, 43}
        /\ \A t \in Escapes : Decoded(Encoded(Decoded(t))) = Decoded(t)
MCView == last
=============================================================================

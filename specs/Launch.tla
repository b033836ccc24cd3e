------------------------------- MODULE Launch --------------------------------
(* Property C34: the process around a program: Application runs it, System prints, reads the environment and the clock, and exits. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Text
C(o, a) == [o |-> o, a |-> a]
CONSTANTS Names, Texts, ArgTexts
VARIABLES env, res, exc
vars == <<env, res, exc>>
AllNames == 0..3                                        \* names of environment variables the driver keeps for itself
None == <<-1>>
Empty == [n \in AllNames |-> None]
New(k) == env' = Empty /\ res' = <<>> /\ exc' = ""
Init == env = Empty /\ res = <<>> /\ exc = ""
Ret(r) == res' = r /\ exc' = "" /\ UNCHANGED env
Line(t) == Append(t, 10)
AppText == <<65,112,112,108,105,99,97,116,105,111,110,32,69,120,99,101,112,116,105,111,110,58,32>>       \* "Application Exception: "
Unhandled == <<85,110,104,97,110,100,108,101,100,32,69,120,99,101,112,116,105,111,110>>                   \* "Unhandled Exception"
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>
(* printed: 0 int 1 String 2 const_string 3 char 4 Boolean 5 Integer 6 long *)
Shown(k, v) == CASE k \in {0, 5, 6} -> Dec(v[1]) [] k \in {1, 2} -> v [] k = 3 -> v [] k = 4 -> IF v = <<1>> THEN TrueText ELSE FalseText
(* what the program does: 0 returns, 1 prints and returns, 2..5 throws an exception of some class, 6 an error, 7 an int, 8 a std::exception *)
Outcome(act, t) == CASE act = 0 -> <<0, <<>>>> [] act = 1 -> <<0, Line(t)>> [] act \in 2..5 -> <<1, Line(AppText \o t)>> [] act \in 6..8 -> <<1, Line(Unhandled)>>
                     [] act = 9 -> <<1, Line(t) \o Line(AppText \o t)>>                               \* prints, then throws
Do(o, a) ==
  CASE o = "new" -> New(0)
    [] o = "put" -> env' = [env EXCEPT ![a[1]] = a[2]] /\ res' = <<>> /\ exc' = ""
    [] o = "drop" -> env' = [env EXCEPT ![a[1]] = None] /\ res' = <<>> /\ exc' = ""
    [] o = "getenv" -> Ret(<<IF env[a[1]] = None THEN <<>> ELSE env[a[1]]>>)
    [] o = "print" -> Ret(<<Shown(a[1], a[2])>>)
    [] o = "println" -> Ret(<<Line(Shown(a[1], a[2]))>>)
    [] o = "app" -> Ret(<<1, Outcome(a[2], a[3])[1], a[1], Outcome(a[2], a[3])[2]>>)                  \* runs, exit code, arguments seen, printed
    [] o = "clock" -> Ret(<<1>>)
    [] o = "exit" -> Ret(<<a[1] % 256>>)
Obs(e) == exc' = e.x /\ res' = e.r /\ e.s = [k \in 1..4 |-> env'[k - 1]]
-----------------------------------------------------------------------------
Lists == UNION {[1..n -> ArgTexts] : n \in 0..2}
Calls == {C("put", <<n, t>>) : n \in Names, t \in Texts} \cup {C(o, <<n>>) : o \in {"drop", "getenv"}, n \in Names}
         \cup {C(o, <<k, <<v>>>>) : o \in {"print", "println"}, k \in {0, 5, 6}, v \in {0, -1, 2147483647}} \cup {C(o, <<k, t>>) : o \in {"print", "println"}, k \in {1, 2}, t \in Texts}
         \cup {C(o, <<3, <<c>>>>) : o \in {"print", "println"}, c \in {65, 10}} \cup {C(o, <<4, <<b>>>>) : o \in {"print", "println"}, b \in {0, 1}}
         \cup (IF env = Empty THEN {C("app", <<l, act, t>>) : l \in Lists, act \in 0..9, t \in Texts} ELSE {}) \cup {C("clock", <<>>)} \cup (IF env = Empty THEN {C("exit", <<n>>) : n \in {0, 1, 255}} ELSE {})
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TRUE
TextSet == {<<>>, <<97>>, <<104, 105, 32, 33>>}
ArgSet == {<<>>, <<45, 120>>}
Failures == \A act \in 0..9 : \A t \in Texts : (Outcome(act, t)[1] = 0) = (act \in {0, 1})
ReadOnly == [][(\A n \in AllNames : env'[n] = env[n]) \/ res' = <<>>]_vars
MCView == env
=============================================================================

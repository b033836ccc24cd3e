------------------------------- MODULE Dates --------------------------------
(* Property C24: two Date objects in one of four zones.  A Date is an instant (in whole seconds). *)
EXTENDS Calendar, TLC
LOCAL INSTANCE Text
LOCAL INSTANCE Bits
C(o, a) == [o |-> o, a |-> a]
VARIABLES at, zone, res, exc
vars == <<at, zone, res, exc>>
CONSTANTS Depth, Zones, Days, Fs
Epoch == <<11000, 0>>                                        \* what objects are made as
New(k) == at' = <<Epoch, Epoch>> /\ zone' = k /\ res' = <<>> /\ exc' = ""
Init == at = <<Epoch, Epoch>> /\ zone \in Zones /\ res = <<>> /\ exc = ""
-----------------------------------------------------------------------------
Set(i, x) == at' = [at EXCEPT ![i] = x] /\ res' = <<>> /\ exc' = "" /\ UNCHANGED zone
SetLocal(i, l) == \E x \in Instants(l, zone) : Set(i, x)
Ret(r) == res' = r /\ exc' = "" /\ UNCHANGED <<at, zone>>
F(i) == FieldsOf(Local(at[i], zone))
Norm0(f) == LocalOf(f.y, f.mon, f.d, f.h, f.mi, f.s)
Norm(f) == Ev1(Norm0, f)
FieldList(f, off) == <<f.y - 1900, f.mon, f.d, f.wd, f.h, f.mi, f.s, -(off \div 60)>>
Seen0(x, z) == <<x[1], x[2]>> \o Ev2(FieldList, FieldsOf(Local(x, z)), Offset(x, z))
Seen(x, z) == Ev2(Seen0, x, z)                                    \* the instant and its fields
Denoted(a) == LocalOf(a[2] + 1900, a[3], a[4], a[5], a[6], a[7])               \* <<i, year - 1900, month, date, h, m, s>>
Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o = "make6" -> SetLocal(a[1], Denoted(a))
    [] o = "make5" -> SetLocal(a[1], LocalOf(a[2] + 1900, a[3], a[4], a[5], a[6], 0))
    [] o = "make3" -> SetLocal(a[1], LocalOf(a[2] + 1900, a[3], a[4], 0, 0, 0))
    [] o \in {"fromInstant", "setTime"} -> Set(a[1], <<a[2], a[3] \div 1000>>)   \* day and millisecond of the day
    [] o \in {"copy", "assign", "clone"} -> Set(a[1], at[a[2]])
    [] o = "setYear" -> SetLocal(a[1], Norm([F(a[1]) EXCEPT !.y = a[2] + 1900]))
    [] o = "setMonth" -> SetLocal(a[1], Norm([F(a[1]) EXCEPT !.mon = a[2]]))
    [] o = "setDate" -> SetLocal(a[1], Norm([F(a[1]) EXCEPT !.d = a[2]]))
    [] o = "setHours" -> SetLocal(a[1], Norm([F(a[1]) EXCEPT !.h = a[2]]))
    [] o = "setMinutes" -> SetLocal(a[1], Norm([F(a[1]) EXCEPT !.mi = a[2]]))
    [] o = "setSeconds" -> SetLocal(a[1], Norm([F(a[1]) EXCEPT !.s = a[2]]))
    [] o = "utc" -> Ret(Denoted(a))                                              \* the arguments are UTC
    [] o = "texts" -> Ret(<<LongText(at[a[1]], zone), LocaleText(at[a[1]], zone), GmtText(at[a[1]])>>)
    [] o = "compare" -> LET x == at[a[1]] y == at[a[2]] IN
                        Ret(<<Bool(Earlier(x, y)), Bool(Earlier(y, x)), Bool(x = y), IF Earlier(x, y) THEN -1 ELSE IF x = y THEN 0 ELSE 1, 1>>)
    (* a[1] becomes what the text of a[2] denotes *)
    [] o \in {"parseLong", "parseGmt"} -> Set(a[1], at[a[2]])
    [] o = "parseLocale" -> SetLocal(a[1], Local(at[a[2]], zone))
    (* the text of given fields: with a zone (minutes west of Greenwich), in local time, date only *)
    [] o = "parseZoned" -> Set(a[1], Shift(Denoted(a), 60 * a[8]))
    [] o = "parseLocal" -> SetLocal(a[1], Denoted(a))
    [] o = "parseDate" -> SetLocal(a[1], LocalOf(a[2] + 1900, a[3], a[4], 0, 0, 0))
    (* the last two digits of a year, which is that of the hundred years from 80 years ago on; the result is the present year *)
    [] o = "parseShort" -> \E now \in 2020..2100 : \E y \in (now - 80)..(now + 19) : y % 100 = a[2] /\ res' = <<now>>
                             /\ (\E x \in Instants(LocalOf(y, a[3], a[4], 0, 0, 0), zone) : at' = [at EXCEPT ![a[1]] = x]) /\ exc' = "" /\ UNCHANGED zone
Obs(e) == exc' = e.x /\ res' = e.r /\ \A i \in 1..2 : e.s[i] = Seen(at'[i], zone')
-----------------------------------------------------------------------------
Some(i) == {C("make6", <<i, y, m, d, h, 30, 0>>) : y \in {IF zone = 1 THEN 72 ELSE 70, 100, 124}, m \in {1, 2, 10, 12, -1}, d \in {0, 1, 10, 29}, h \in {-1, 1, 2}}
Calls == IF at = <<Epoch, Epoch>> THEN {C("fromInstant", <<1, d, f>>) : d \in {d \in Days : zone # 1 \/ d > 5000}, f \in {0, 25199999, 86399999}} \cup Some(1)
         ELSE {C(o, <<2, 1>>) : o \in {"copy", "assign", "clone", "parseGmt", "parseLocale"} \cup IF zone = 2 THEN {} ELSE {"parseLong"}} \cup {C("texts", <<1>>), C("compare", <<1, 2>>), C("compare", <<2, 1>>)}
              \cup {C(o, <<1, v>>) : o \in {"setMonth", "setDate", "setHours", "setMinutes", "setSeconds"}, v \in Fs} \cup {C("setYear", <<1, y>>) : y \in {100, 101, 200}}
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= Depth
FsSet == {0, -1, 2, 31, 75}
DaySet == {-1, 0, 59, 11016, 11017, 19793, 19792, 20029, 47541}
(* theorems of the model *)
RoundTrip == \A i \in 1..2 : at[i] \in Instants(Local(at[i], zone), zone) /\ Norm(F(i)) = Local(at[i], zone)
InRange == \A i \in 1..2 : LET f == F(i) IN f.mon \in 0..11 /\ f.d \in 1..31 /\ f.wd \in 0..6 /\ f.h \in 0..23 /\ f.mi \in 0..59 /\ f.s \in 0..59
NextDay == \A i \in 1..2 : LET f == F(i) g == FieldsOf(Shift(Local(at[i], zone), 86400)) IN g.wd = (f.wd + 1) % 7 /\ (g.d = f.d + 1 \/ g.d = 1)
MCView == <<at, zone>>
=============================================================================

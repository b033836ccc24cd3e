------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar.  An instant is <<day, second>>: days since 1 January 1970 and the second in the  *)
(* UTC day; a local time is of the same shape.  `\div` and `%` round towards minus infinity.                          *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE Text
LOCAL INSTANCE Bits
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
BeforeYear(y) == 365 * (y - 1970) + ((y - 1969) \div 4) - ((y - 1901) \div 100) + ((y - 1601) \div 400)
Cum == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365>>
BeforeMonth(y, m) == Cum[m + 1] + (IF m >= 2 /\ Leap(y) THEN 1 ELSE 0)         \* m: 0..12
(* fields, months counted from 0, years as they are, in or out of range *)
LocalOf1(yy, mon, rest) == <<BeforeYear(yy) + BeforeMonth(yy, mon) + rest[1] - 1 + (rest[2] \div 86400), rest[2] % 86400>>
LocalOf(y, mon, d, h, mi, s) == Ev3(LocalOf1, y + (mon \div 12), mon % 12, <<d, h * 3600 + mi * 60 + s>>)
YearNear(day, g) == CHOOSE y \in (g - 1)..(g + 1) : BeforeYear(y) <= day /\ day < BeforeYear(y + 1)
YearOf(day) == Ev2(YearNear, day, 1970 + (400 * (day \div 146097)) + (((day % 146097) * 400) \div 146097))
MonthOf(y, doy) == CHOOSE m \in 0..11 : BeforeMonth(y, m) <= doy /\ doy < BeforeMonth(y, m + 1)
FieldsOn(l, y, mon) == [y |-> y, mon |-> mon, d |-> l[1] - BeforeYear(y) - BeforeMonth(y, mon) + 1, wd |-> (l[1] + 4) % 7,
                       h |-> l[2] \div 3600, mi |-> (l[2] \div 60) % 60, s |-> l[2] % 60]
FieldsIn0(l, y) == Ev3(FieldsOn, l, y, Ev2(MonthOf, y, l[1] - BeforeYear(y)))
FieldsIn1(l) == Ev2(FieldsIn0, l, YearOf(l[1]))
FieldsOf(l) == Ev1(FieldsIn1, l)
Shift0(i, t) == <<i[1] + (t \div 86400), t % 86400>>
Shift(i, sec) == Ev2(Shift0, i, i[2] + sec)
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* zones: 0 UTC; 1 eastern time with its present daylight saving rule; 2 five and a half hours east; 3 eight hours west; *)
(* 4, 5: Asia/Ho_Chi_Minh and Asia/Singapore, from 1983 on                                                                *)
Std(z) == CASE z = 0 -> 0 [] z = 1 -> -18000 [] z = 2 -> 19800 [] z = 3 -> -28800 [] z = 4 -> 25200 [] z = 5 -> 28800
SundayFrom(first) == first + ((7 - ((first + 4) % 7)) % 7)
Sunday(y, mon, n) == Ev1(SundayFrom, BeforeYear(y) + BeforeMonth(y, mon)) + 7 * (n - 1)
SummerIn(i, y) == ~Earlier(i, <<Sunday(y, 2, 2), 25200>>) /\ Earlier(i, <<Sunday(y, 10, 1), 21600>>)
Summer(i, z) == z = 1 /\ Ev2(SummerIn, i, YearOf(Shift(i, Std(z))[1]))
Offset0(i, z) == IF Summer(i, z) THEN Std(z) + 3600 ELSE Std(z)
Offset(i, z) == Ev2(Offset0, i, z)
Local0(i, z) == Shift(i, Offset(i, z))
Local(i, z) == Ev2(Local0, i, z)
(* the instants a local time may denote: two in an hour that is repeated; either reading of an hour that is skipped *)
Readings(l, z) == IF z # 1 THEN {Shift(l, -Std(z))} ELSE {Shift(l, -Std(z)), Shift(l, -Std(z) - 3600)}
Kept(R, l, z) == {i \in R : Local(i, z) = l}
OrAll(G, R) == IF G = {} THEN R ELSE G
Instants1(R, l, z) == Ev2(OrAll, Kept(R, l, z), R)
Instants0(l, z) == Ev3(Instants1, Readings(l, z), l, z)
Instants(l, z) == Ev2(Instants0, l, z)
ZoneName(i, z) == CASE z = 0 -> <<85, 84, 67>> [] z = 1 -> (IF Summer(i, z) THEN <<69, 68, 84>> ELSE <<69, 83, 84>>) [] z = 2 -> <<43, 48, 53, 51, 48>> [] z = 3 -> <<80, 83, 84>> [] z = 4 -> <<43, 48, 55>> [] z = 5 -> <<43, 48, 56>>
Months == <<<<74, 97, 110>>, <<70, 101, 98>>, <<77, 97, 114>>, <<65, 112, 114>>, <<77, 97, 121>>, <<74, 117, 110>>, <<74, 117, 108>>, <<65, 117, 103>>, <<83, 101, 112>>, <<79, 99, 116>>, <<78, 111, 118>>, <<68, 101, 99>>>>
Weekdays == <<<<83, 117, 110>>, <<77, 111, 110>>, <<84, 117, 101>>, <<87, 101, 100>>, <<84, 104, 117>>, <<70, 114, 105>>, <<83, 97, 116>>>>
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Clock(f) == Two(f.h) \o <<58>> \o Two(f.mi) \o <<58>> \o Two(f.s)
Space == <<32>>
LongText0(i, z, f) == Weekdays[f.wd + 1] \o Space \o Months[f.mon + 1] \o Space \o Two(f.d) \o Space \o Clock(f) \o Space \o ZoneName(i, z) \o Space \o Dec(f.y)
LocaleText0(f) == Months[f.mon + 1] \o Space \o Two(f.d) \o CommaSpace \o Dec(f.y) \o Space
                  \o Clock([f EXCEPT !.h = IF f.h % 12 = 0 THEN 12 ELSE f.h % 12]) \o (IF f.h < 12 THEN <<32, 65, 77>> ELSE <<32, 80, 77>>)
GmtText0(f) == Two(f.d) \o Space \o Months[f.mon + 1] \o Space \o Dec(f.y) \o Space \o Clock(f) \o <<32, 71, 77, 84>>
LongText(i, z) == Ev3(LongText0, i, z, FieldsOf(Local(i, z)))
LocaleText(i, z) == Ev1(LocaleText0, FieldsOf(Local(i, z)))
GmtText(i) == Ev1(GmtText0, FieldsOf(i))
=============================================================================

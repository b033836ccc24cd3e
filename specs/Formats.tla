------------------------------ MODULE Formats -------------------------------
(* Property C30: SimpleDateFormat.  Formatters have a pattern and a zone; the process has its own zone, which formatting *)
(* must not touch.  An instant is <<day, second>>.                                                                       *)
EXTENDS Calendar, TLC
LOCAL INSTANCE Text
LOCAL INSTANCE Bits
LOCAL INSTANCE SequencesExt
C(o, a) == [o |-> o, a |-> a]
CONSTANTS Depth, Homes, Zones, Pats, Days, Secs
VARIABLES fs, home, res, exc        \* home: the zone of the process, 9 when TZ is not set
vars == <<fs, home, res, exc>>
Fresh == [pat |-> <<37, 70>>, zone |-> 0]                    \* "%F", UTC
New(k) == fs' = <<Fresh, Fresh>> /\ home' = k /\ res' = <<>> /\ exc' = ""
Init == fs = <<Fresh, Fresh>> /\ home \in Homes /\ res = <<>> /\ exc = ""
-----------------------------------------------------------------------------
FullMonths == <<<<74,97,110,117,97,114,121>>, <<70,101,98,114,117,97,114,121>>, <<77,97,114,99,104>>, <<65,112,114,105,108>>, <<77,97,121>>, <<74,117,110,101>>, <<74,117,108,121>>,
                <<65,117,103,117,115,116>>, <<83,101,112,116,101,109,98,101,114>>, <<79,99,116,111,98,101,114>>, <<78,111,118,101,109,98,101,114>>, <<68,101,99,101,109,98,101,114>>>>
FullDays == <<<<83,117,110,100,97,121>>, <<77,111,110,100,97,121>>, <<84,117,101,115,100,97,121>>, <<87,101,100,110,101,115,100,97,121>>, <<84,104,117,114,115,100,97,121>>, <<70,114,105,100,97,121>>, <<83,97,116,117,114,100,97,121>>>>
Wide2(n) == IF n < 10 THEN <<32, 48 + n>> ELSE Two(n)
Three(n) == <<48 + (n \div 100)>> \o Two(n % 100)
Hour12(h) == IF h % 12 = 0 THEN 12 ELSE h % 12
Ampm(h) == IF h < 12 THEN <<65, 77>> ELSE <<80, 77>>
Lower(t) == [k \in DOMAIN t |-> t[k] + 32]
Doy(l, f) == l[1] - BeforeYear(f.y)                          \* 0..365
(* ISO 8601 weeks belong to the year of their Thursday *)
Thursday(l) == l[1] - ((l[1] + 3) % 7) + 3
IsoYear(l) == YearOf(Thursday(l))
IsoWeek(l) == ((Thursday(l) - BeforeYear(IsoYear(l))) \div 7) + 1
Zulu(off) == LET m == (IF off < 0 THEN -off ELSE off) \div 60 IN <<IF off < 0 THEN 45 ELSE 43>> \o Two(m \div 60) \o Two(m % 60)
(* the pattern a conversion stands for *)
Longer == [c \in {84, 68, 70, 82, 114, 99, 120, 88} |->
    CASE c = 84 \/ c = 88 -> <<37, 72, 58, 37, 77, 58, 37, 83>>                             \* T, X: %H:%M:%S
      [] c = 68 \/ c = 120 -> <<37, 109, 47, 37, 100, 47, 37, 121>>                         \* D, x: %m/%d/%y
      [] c = 70 -> <<37, 89, 45, 37, 109, 45, 37, 100>>                                     \* F: %Y-%m-%d
      [] c = 82 -> <<37, 72, 58, 37, 77>>                                                   \* R: %H:%M
      [] c = 114 -> <<37, 73, 58, 37, 77, 58, 37, 83, 32, 37, 112>>                         \* r: %I:%M:%S %p
      [] c = 99 -> <<37, 97, 32, 37, 98, 32, 37, 101, 32, 37, 72, 58, 37, 77, 58, 37, 83, 32, 37, 89>>]    \* c: %a %b %e %H:%M:%S %Y
(* x: [i: instant, z: zone, l: local time, f: its fields] *)
One(c, x) ==
  CASE c = 89 -> Dec(x.f.y)                        \* Y
    [] c = 67 -> Two(x.f.y \div 100)               \* C
    [] c = 121 -> Two(x.f.y % 100)                 \* y
    [] c = 109 -> Two(x.f.mon + 1)                 \* m
    [] c = 100 -> Two(x.f.d)                       \* d
    [] c = 101 -> Wide2(x.f.d)                     \* e
    [] c = 106 -> Three(Doy(x.l, x.f) + 1)         \* j
    [] c = 72 -> Two(x.f.h)                        \* H
    [] c = 107 -> Wide2(x.f.h)                     \* k
    [] c = 73 -> Two(Hour12(x.f.h))                \* I
    [] c = 108 -> Wide2(Hour12(x.f.h))             \* l
    [] c = 77 -> Two(x.f.mi)                       \* M
    [] c = 83 -> Two(x.f.s)                        \* S
    [] c = 112 -> Ampm(x.f.h)                      \* p
    [] c = 80 -> Lower(Ampm(x.f.h))                \* P
    [] c = 97 -> Weekdays[x.f.wd + 1]              \* a
    [] c = 65 -> FullDays[x.f.wd + 1]              \* A
    [] c \in {98, 104} -> Months[x.f.mon + 1]      \* b, h
    [] c = 66 -> FullMonths[x.f.mon + 1]           \* B
    [] c = 117 -> Dec(IF x.f.wd = 0 THEN 7 ELSE x.f.wd)      \* u
    [] c = 119 -> Dec(x.f.wd)                      \* w
    [] c = 85 -> Two((Doy(x.l, x.f) + 7 - x.f.wd) \div 7)                 \* U
    [] c = 87 -> Two((Doy(x.l, x.f) + 7 - ((x.f.wd + 6) % 7)) \div 7)     \* W
    [] c = 86 -> Two(IsoWeek(x.l))                 \* V
    [] c = 71 -> Dec(IsoYear(x.l))                 \* G
    [] c = 103 -> Two(IsoYear(x.l) % 100)          \* g
    [] c = 122 -> Zulu(Offset(x.i, x.z))           \* z
    [] c = 90 -> ZoneName(x.i, x.z)                \* Z
    [] c = 37 -> <<37>>
    [] c = 110 -> <<10>>
    [] c = 116 -> <<9>>
Simple == {89, 67, 121, 109, 100, 101, 106, 72, 107, 73, 108, 77, 83, 112, 80, 97, 65, 98, 104, 66, 117, 119, 85, 87, 86, 71, 103, 122, 90, 37, 110, 116}
(* a scan with a flag for the character after a percent sign *)
Scan(p, x, Conv(_, _)) == FoldLeft(LAMBDA acc, c : IF acc[2] THEN <<acc[1] \o Conv(c, x), FALSE>> ELSE IF c = 37 THEN <<acc[1], TRUE>> ELSE <<Append(acc[1], c), FALSE>>, <<<<>>, FALSE>>, p)[1]
Conv1(c, x) == IF c \in Simple THEN One(c, x) ELSE Scan(Longer[c], x, One)
Text1(p, x) == Scan(p, x, Conv1)
At1(i, z, l) == [i |-> i, z |-> z, l |-> l, f |-> FieldsOf(l)]
At(i, z) == Ev3(At1, i, z, Local(i, z))
Format(p, i, z) == Ev2(Text1, p, At(i, z))
Blank(c) == c \in {9, 10, 11, 12, 13, 32}
Trim(t) == LET P == {k \in DOMAIN t : ~Blank(t[k])} IN IF P = {} THEN <<>> ELSE SubSeq(t, MinOf(P), MaxOf(P))
-----------------------------------------------------------------------------
Put(i, f) == fs' = [fs EXCEPT ![i] = f] /\ res' = <<>> /\ exc' = "" /\ UNCHANGED home
Ret(r) == res' = r /\ exc' = "" /\ UNCHANGED <<fs, home>>
Do(o, a) ==
  CASE o = "new" -> New(IF a = <<>> THEN 0 ELSE a[1])
    [] o = "make" -> Put(a[1], [pat |-> a[2], zone |-> 0])
    [] o = "setZone" -> Put(a[1], [fs[a[1]] EXCEPT !.zone = a[2]])
    [] o = "copy" -> Put(a[1], fs[a[2]])
    [] o = "assign" -> Put(a[1], fs[a[2]])
    [] o = "format" -> Ret(<<Trim(Format(fs[a[1]].pat, <<a[2], a[3]>>, fs[a[1]].zone))>>)
    [] o = "ids" -> Ret(<<a[1], a[2]>>)                              \* two zones looked up one after the other, and both used
    [] o \in {"local", "wall"} -> Ret(LET f == FieldsOf(Local(<<a[1], a[2]>>, home)) IN <<f.y - 1900, f.mon, f.d, f.h, f.mi, f.s>>)          \* fields of a Date; what the C library says
Obs(e) == exc' = e.x /\ res' = e.r /\ e.s = <<home'>>
-----------------------------------------------------------------------------
Calls == {C("make", <<1, p>>) : p \in Pats} \cup {C("setZone", <<i, z>>) : i \in {1}, z \in Zones} \cup {C("copy", <<2, 1>>), C("assign", <<2, 1>>), C("assign", <<1, 2>>)}
         \cup {C("format", <<i, d, s>>) : i \in 1..2, d \in Days, s \in Secs} \cup {C("ids", <<z, w>>) : z \in Zones, w \in Zones} \cup (IF home = 9 THEN {} ELSE {C(o, <<d, s>>) : o \in {"local", "wall"}, d \in Days, s \in {3600}})
Next == \E c \in Calls : Do(c.o, c.a)
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= Depth
DaySet == {5845, 11016, 11322, 19723, 19792, 20029, 18627, 46811}        \* ends of years and weeks, changes of daylight saving time
Few == {19792, 20029, 11016}
Two2 == {<<37, 99, 32, 37, 122>>, <<37, 90, 37, 82>>}
SecSet == {0, 25199, 43200, 86399}
PatSet == {<<37, c>> : c \in Simple \cup {84, 68, 70, 82, 114, 99, 120, 88}} \cup {<<>>, <<32, 37, 37, 72, 97, 32>>, <<37, 99, 124, 37, 99, 124, 37, 99, 124, 37, 65>>}
(* theorems of the model *)
Places == {<<d, s>> : d \in Days, s \in Secs}
Weeks == \A p \in Places : /\ IsoWeek(p) \in 1..53 /\ IsoYear(p) \in (YearOf(p[1]) - 1)..(YearOf(p[1]) + 1)
                           /\ IsoWeek(<<BeforeYear(YearOf(p[1])) + 3, 0>>) = 1                                 \* 4 January is in week 1
                           /\ IsoWeek(<<p[1] + 7, 0>>) = 1 \/ IsoWeek(<<p[1] + 7, 0>>) = IsoWeek(p) + 1
Composite == \A p \in Places : \A z \in Zones : /\ Format(<<37, 70, 84, 37, 84>>, p, z) = Format(<<37, 70>>, p, z) \o <<84>> \o Format(<<37, 84>>, p, z)
                                              /\ Len(Format(<<37, 99>>, p, z)) = 24
Untouched == [][home' = home]_vars
MCView == <<fs, home>>
=============================================================================

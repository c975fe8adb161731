------------------------------ MODULE Calendar ------------------------------
\* The proleptic Gregorian calendar, ISO 8601 texts of instants, and the text of a time span.
EXTENDS Time, Bytes
Leap(y) == y % 400 = 0 \/ (y % 4 = 0 /\ y % 100 # 0)
MDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* Days from 1970-01-01 to January 1st of year y
YearStart(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 1969 \div 4) - ((y - 1) \div 100 - 1969 \div 100) + ((y - 1) \div 400 - 1969 \div 400)
RECURSIVE MonthStart(_, _)
MonthStart(y, m) == IF m = 1 THEN 0 ELSE MonthStart(y, m - 1) + MDays(y, m - 1)
DayNo(y, m, d) == YearStart(y) + MonthStart(y, m) + d - 1
YearOf(n) == CHOOSE y \in (IF n < 0 THEN 1969 + n \div 365 ELSE 1970 + n \div 366)..(IF n < 0 THEN 1970 + n \div 366 ELSE 1971 + n \div 365) : YearStart(y) <= n /\ n < YearStart(y + 1)
Civil(n) == LET y == YearOf(n)  r == n - YearStart(y)
                m == CHOOSE k \in 1..12 : MonthStart(y, k) <= r /\ r < MonthStart(y, k) + MDays(y, k)
            IN [y |-> y, m |-> m, d |-> r - MonthStart(y, m) + 1]
Weekday(n) == (n + 4) % 7                            \* 0 is Sunday

\* Zones: a fixed offset in seconds, and the European summer time rule (last Sunday of March to that of October, 01:00 UTC)
LastSunday(y, m) == LET n == DayNo(y, m, 31) IN n - Weekday(n)
Summer(day, sod) == LET y == YearOf(day)  b == LastSunday(y, 3)  f == LastSunday(y, 10) IN
                    (day > b \/ (day = b /\ sod >= 3600)) /\ (day < f \/ (day = f /\ sod < 3600))
Offset(zone, day, sod) == CASE zone = "UTC" -> 0 [] zone = "EST5" -> -18000 [] zone = "IST-5:30" -> 19800
                            [] zone = "CET-1CEST,M3.5.0,M10.5.0/3" -> IF Summer(day, sod) THEN 7200 ELSE 3600

Stamp(s, zone) == LET day == BVal(BDiv(s, 86400))  sod == BMod(s, 86400)
                      t0 == sod + Offset(zone, day, sod)
                      c == Civil(day + t0 \div 86400)  u == t0 % 86400
                  IN [y |-> c.y, m |-> c.m, d |-> c.d, hh |-> u \div 3600, mi |-> (u % 3600) \div 60, ss |-> u % 60, wd |-> Weekday(day + t0 \div 86400)]
\* Second (rounded down) and nanosecond of a count
FloorSec(c) == BDivE9(c)
FloorNano(c) == BVal(BSub(c, BE9(BDivE9(c))))
Extended(k) == Pad0(k.y, 4) \o B("-") \o Pad0(k.m, 2) \o B("-") \o Pad0(k.d, 2) \o B(" ") \o Pad0(k.hh, 2) \o B(":") \o Pad0(k.mi, 2) \o B(":") \o Pad0(k.ss, 2)
BasicT(k) == Pad0(k.y, 4) \o Pad0(k.m, 2) \o Pad0(k.d, 2) \o B("T") \o Pad0(k.hh, 2) \o Pad0(k.mi, 2) \o Pad0(k.ss, 2)
\* The forms without a fraction show the second that tsSec() gives.
FmtExt(c, zone) == Extended(Stamp(Secs(c), zone))
FmtBasic(c, zone) == BasicT(Stamp(FloorSec(c), zone)) \o B(",") \o Pad0(FloorNano(c), 9)
WdName == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
Strf(c, zone) == LET k == Stamp(Secs(c), zone) IN B(WdName[k.wd + 1]) \o B(" ") \o Pad0(k.d, 2) \o B("/") \o Pad0(k.m, 2) \o B("/") \o Pad0(k.y, 4) \o B(" ") \o Pad0(k.hh, 2)

\* Reading the basic form and its prefixes
Field(s, a, n, def) == IF Len(s) >= a + n - 1 THEN Val(SubSeq(s, a, a + n - 1)) ELSE def
UsedIdx(s) == ({1, 2, 3, 4} \cup (IF Len(s) >= 6 THEN {5, 6} ELSE {}) \cup (IF Len(s) >= 8 THEN {7, 8} ELSE {}) \cup (IF Len(s) >= 11 THEN {10, 11} ELSE {})
               \cup (IF Len(s) >= 13 THEN {12, 13} ELSE {}) \cup (IF Len(s) >= 15 THEN {14, 15} ELSE {}) \cup (IF Len(s) > 16 THEN 17..25 ELSE {})) \cap (1..(IF Len(s) >= 4 THEN Len(s) ELSE 0))
Wellformed(s) == \A i \in UsedIdx(s) : IsDigit(s[i])
ParseNano(s) == IF Len(s) <= 16 THEN 0 ELSE LET f == SubSeq(s, 17, IF Len(s) < 25 THEN Len(s) ELSE 25) IN Val(f \o Rep(48, 9 - Len(f)))
Parse(s) == LET y == Field(s, 1, 4, 1970)  m == Field(s, 5, 2, 1)  d == Field(s, 7, 2, 1)
                h == Field(s, 10, 2, 0)  mi == Field(s, 12, 2, 0)  ss == Field(s, 14, 2, 0)
            IN Count(BAdd(BMul(BInt(DayNo(y, m, d)), 86400), BInt(3600 * h + 60 * mi + ss)), ParseNano(s))

\* A time span in hours, minutes, seconds and the finest unit its fraction needs
BDec(b) == LET RECURSIVE Go(_)
               Go(d) == IF Len(d) = 1 THEN Dec(d[1]) ELSE Go(Tail(d)) \o Pad0(d[1], 4)
           IN IF b.d = <<>> THEN <<48>> ELSE Go(b.d)
IDec(n) == IF n < 0 THEN B("-") \o Dec(-n) ELSE Dec(n)
SpanText(c) ==
  LET n == Nano(c)  a == BAbs(Secs(c))
      h == BLess(BInt(3600), a)  r1 == IF h THEN BInt(BRem(a, 3600)) ELSE a
      r1v == BVal(r1)  mm == r1v > 60  r2 == IF mm THEN r1v % 60 ELSE r1v
  IN (IF Secs(c).neg THEN B("-") ELSE <<>>)
     \o (IF h THEN BDec(BQuo(a, 3600)) \o B("h") ELSE <<>>)
     \o (IF mm THEN Dec(r1v \div 60) \o B("m") ELSE <<>>)
     \o (IF r2 > 0 THEN Dec(r2) \o B("s") ELSE <<>>)
     \o (IF n % 1000000 = 0 THEN IDec(Trunc(n, 1000000)) \o B("ms")
         ELSE IF n % 1000 = 0 THEN IDec(Trunc(n, 1000)) \o B("us") ELSE IDec(n) \o B("ns"))
=============================================================================

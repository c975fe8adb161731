----------------------------- MODULE CalendarMC -----------------------------
\* The calendar by counting: one step is one day. Every day of 1968..2101 (and later centuries from their eves) is
\* reached by incrementing, and the direct formulas must agree with the counted date.
EXTENDS Calendar
VARIABLES n, c, w
Starts == {<<1968, 12, 31>>, <<2099, 12, 31>>, <<2399, 12, 31>>, <<9990, 12, 31>>}
MInit == \E s \in Starts : c = [y |-> s[1], m |-> s[2], d |-> s[3]] /\ n = DayNo(s[1], s[2], s[3]) /\ w = Weekday(n) /\ x = BZero /\ t = BZero /\ ev = [op |-> "i"]
NextDay(k) == IF k.d < MDays(k.y, k.m) THEN [k EXCEPT !.d = @ + 1]
              ELSE IF k.m < 12 THEN [y |-> k.y, m |-> k.m + 1, d |-> 1] ELSE [y |-> k.y + 1, m |-> 1, d |-> 1]
MNext == n' = n + 1 /\ c' = NextDay(c) /\ w' = (w + 1) % 7 /\ UNCHANGED <<x, t, ev>>
Bound == c.y \in (1968..1973) \cup (1999..2001) \cup (2099..2101) \cup (2399..2401) \cup (9990..9999)
CivilOK == Civil(n) = c /\ DayNo(c.y, c.m, c.d) = n /\ Weekday(n) = w
Anchors == DayNo(1970, 1, 1) = 0 /\ Weekday(0) = 4 /\ DayNo(2000, 3, 1) = 11017 /\ DayNo(2024, 2, 29) = 19782
RoundTrip == \A sod \in {0, 1, 86399} : LET c0 == Count(BAdd(BMul(BInt(n), 86400), BInt(sod)), 999999999) IN
               (n >= 0 /\ c.y <= 9999) => Parse(FmtBasic(c0, "UTC")) = c0
MSpec == MInit /\ [][MNext]_<<n, c, w, x, t, ev>>
=============================================================================

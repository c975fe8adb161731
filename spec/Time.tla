-------------------------------- MODULE Time --------------------------------
\* A time span x and a time stamp t, each an exact count of nanoseconds, and what a caller may observe of them.
EXTENDS Big, FiniteSets
VARIABLES x, t, ev
tvars == <<x, t, ev>>

Count(s, n) == BAdd(BE9(s), BInt(n))                 \* s: big number of seconds, n: nanoseconds
\* A stored value: seconds and nanoseconds in normal form that denote the count c.
Normal(s, n) == /\ n > -1000000000 /\ n < 1000000000
                /\ s.neg => n <= 0
                /\ (~s.neg /\ s.d # <<>>) => n >= 0
Denotes(r, c) == Normal(r.s, r.n) /\ Count(r.s, r.n) = c

\* r is c scaled by p/q up to one nanosecond of rounding and the precision of a double
Scaled(r, c, p, q) == LET ex == BMul(c, p)  er == BAbs(BSub(BMul(r, q), ex)) IN
                      BLeq(er, BAdd(BInt(2 * (IF q < 0 THEN -q ELSE q)), BQuo(BQuo(BQuo(BAbs(ex), 100000), 100000), 10000)))

Cmp6(r, c) == /\ r.lt = (c < 0) /\ r.le = (c <= 0) /\ r.gt = (c > 0) /\ r.ge = (c >= 0) /\ r.eq = (c = 0) /\ r.ne = (c # 0)

\* Components: all truncate towards zero, as the accessors of a normal form do.
Secs(c) == BQuoE9(c)
Nano(c) == BVal(BSub(c, BE9(BQuoE9(c))))             \* -999999999..999999999, sign of c
Trunc(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
Rem(a, b) == a - b * Trunc(a, b)
Parts(r, c) ==
  /\ r.sec = Secs(c) /\ r.nsec = Nano(c) /\ r.usec = Trunc(Nano(c), 1000)
  /\ r.days = BQuo(Secs(c), 86400)
  /\ r.hours = BRem(BQuo(Secs(c), 3600), 24)
  /\ r.min = Trunc(BRem(Secs(c), 3600), 60)
  /\ r.s60 = Rem(BRem(Secs(c), 3600), 60)
  /\ r.milli = Trunc(Nano(c), 1000000) /\ r.micro = Trunc(Nano(c), 1000) /\ r.nano = Rem(Nano(c), 1000)
  /\ r.tvsec = Secs(c) /\ r.tvnsec = Nano(c)
Totals(r, c) == r.ms = BQuo(BQuo(c, 100000), 10) /\ r.us = BQuo(c, 1000) /\ r.ns = c

New == x' = BZero /\ t' = BZero
MakeSpan(how, s, n) == x' = (CASE how \in {"ctor", "timespec"} -> Count(s, n)
                               [] how \in {"sec", "csec"} -> BE9(s)
                               [] how \in {"msec", "cmsec"} -> BMul(BMul(s, 100000), 10)
                               [] how \in {"usec", "cusec"} -> BMul(s, 1000)) /\ UNCHANGED t
Add(s, n) == x' = BAdd(x, Count(s, n)) /\ UNCHANGED t
Sub(s, n) == x' = BSub(x, Count(s, n)) /\ UNCHANGED t
SubFrom(s, n) == x' = BSub(Count(s, n), x) /\ UNCHANGED t
Abs == x' = BAbs(x) /\ UNCHANGED t
MakeStamp(how, s, n) == t' = (IF how = "time_t" THEN BE9(s) ELSE Count(s, n)) /\ UNCHANGED x
TAdd == t' = BAdd(t, x) /\ UNCHANGED x
TSub == t' = BSub(t, x) /\ UNCHANGED x
TDiff(s, n, rev) == x' = (IF rev THEN BSub(Count(s, n), t) ELSE BSub(t, Count(s, n))) /\ UNCHANGED t
=============================================================================

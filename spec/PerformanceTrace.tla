-------------------------- MODULE PerformanceTrace --------------------------
EXTENDS Performance, TraceBase
e == Ln
Pow10 == <<10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* m * 10^-k, six digits long, is num/den as it is printed
Rounded(m, k, num, den) ==
  IF num = 0 THEN m = 0
  ELSE k \in 1..9 /\ Abs(m) \in 100000..999999 /\ (m < 0) = (num < 0) /\ Abs(Abs(m) * den - Abs(num) * Pow10[k]) * 2 <= den
Same(x, f) == x.t = f.t /\ IF f.den = 0 THEN x.v = <<>> ELSE Len(x.v) = 1 /\ Rounded(x.v[1].m, x.v[1].k, f.num, f.den)
Printed(L, M) == Len(L) = Len(M) /\ \A i \in 1..Len(L) : Len(L[i]) = Len(M[i]) /\ \A j \in 1..Len(L[i]) : Same(L[i][j], M[i][j])
Out(M) == Printed(e.out, M)
Starts(M) == Len(e.out) = 1 /\ Len(e.out[1]) >= Len(M) /\ \A j \in 1..Len(M) : Same(e.out[1][j], M[j])
Act ==
  CASE e.op = "new" -> Init0(e.names) /\ Out(<<>>)
    [] e.op = "init" -> Initialize /\ Out(<<>>)
    [] e.op = "start" -> Start(e.t, e.from, e.till) /\ Out(<<>>)
    [] e.op = "meas" -> Measure(e.t, e.p, e.n, e.r, e.from, e.till) /\ Out(Said(e.p, e.n, e.r))
    [] e.op = "lap" -> Lap(e.t, e.p, e.n, e.r, e.from, e.till) /\ Out(LapSaid(e.t, e.p, e.n, e.r))
    [] e.op = "data" -> Data(e.p, e.n, e.v) /\ Out(<<>>)
    [] e.op = "non" -> NonTime(e.p, e.n, e.v) /\ Out(<<>>)
    [] e.op = "static" -> Static(e.p, e.n, e.v) /\ Out(<<>>)
    [] e.op = "enable" -> Enable(e.p) /\ Out(<<>>)
    [] e.op = "disable" -> Disable(e.p) /\ Out(<<>>)
    [] e.op = "all" -> EnableAll(e.b) /\ Out(<<>>)
    [] e.op = "on" -> Operate(e.b) /\ Out(<<>>)
    [] e.op = "tell" -> Tell(e.b) /\ Out(<<>>)
    [] e.op = "tick" -> UNCHANGED vars
    [] e.op = "sum" -> /\ UNCHANGED vars
                       /\ IF <<e.p, e.n>> \in DOMAIN time THEN Out(<<Time(<<e.p, e.n>>)>>)
                          ELSE Starts(<<Line("Summary for " \o Full(<<e.p, e.n>>)), Fig("Called # times", 0, 1)>>)
    [] e.op = "sumpre" -> Out(<<Summary(e.p)>>) /\ UNCHANGED vars
    \* (which other prefixes are printed while all are enabled is left open)
    [] e.op = "sumall" -> (all \/ Out([i \in 1..Len(Order) |-> Summary(Order[i])])) /\ UNCHANGED vars
    [] OTHER -> FALSE
TInit == names = <<>> /\ on = FALSE /\ ps = FALSE /\ all = FALSE /\ en = {} /\ timer = None /\ time = None /\ non = None /\ stat = None /\ l = 0
TNext == Step /\ Act
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================

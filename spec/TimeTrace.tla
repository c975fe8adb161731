------------------------------ MODULE TimeTrace ------------------------------
EXTENDS Time, TraceBase
e == Ln
X(r) == Denotes(r, x')
T(r) == Denotes(r, t')
TNext ==
  /\ Step
  /\ ev' = e
  /\ CASE e.op = "new" -> New /\ X(e.x) /\ T(e.t)
       [] e.op = "span" -> MakeSpan(e.how, e.s, e.n) /\ X(e.x)
       [] e.op = "add" -> Add(e.s, e.n) /\ X(e.x)
       [] e.op = "sub" -> Sub(e.s, e.n) /\ X(e.x)
       [] e.op = "subfrom" -> SubFrom(e.s, e.n) /\ X(e.x)
       [] e.op = "abs" -> Abs /\ X(e.x)
       [] e.op = "mul" -> Normal(e.x.s, e.x.n) /\ x' = Count(e.x.s, e.x.n) /\ Scaled(x', x, e.p, e.q) /\ UNCHANGED t
       [] e.op = "div" -> Normal(e.x.s, e.x.n) /\ x' = Count(e.x.s, e.x.n) /\ Scaled(x', x, e.q, e.p) /\ UNCHANGED t
       [] e.op = "cmp" -> UNCHANGED <<x, t>> /\ Cmp6(e.r, BCmp(x, Count(e.s, e.n))) /\ Cmp6(e.b, BCmp(Count(e.s, e.n), x))
       [] e.op = "get" -> UNCHANGED <<x, t>> /\ Parts(e.r, x) /\ (e.tot => Totals(e.r, x))
       [] e.op = "stamp" -> MakeStamp(e.how, e.s, e.n) /\ T(e.t)
       [] e.op = "now" -> UNCHANGED x /\ t' = Count(e.s, e.n) /\ T(e.t)
       [] e.op = "future" -> UNCHANGED x /\ t' = BAdd(Count(e.s, e.n), BMul(BMul(e.ms, 100000), 10)) /\ T(e.t)
       [] e.op = "tadd" -> TAdd /\ T(e.t)
       [] e.op = "tsub" -> TSub /\ T(e.t)
       [] e.op = "tdiff" -> TDiff(e.s, e.n, e.rev) /\ X(e.x)
       [] e.op = "tcmp" -> UNCHANGED <<x, t>> /\ Cmp6(e.r, BCmp(t, Count(e.s, e.n))) /\ Cmp6(e.b, BCmp(Count(e.s, e.n), t)) /\ e.max
       [] e.op = "tget" -> UNCHANGED <<x, t>> /\ Parts(e.r, t)
       [] OTHER -> FALSE
TSpec == x = BZero /\ t = BZero /\ ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<x, t, ev, l>>
=============================================================================

---------------------------- MODULE CalendarTrace ----------------------------
EXTENDS Calendar, TraceBase
e == Ln
Ok == CASE e.op = "new" -> TRUE
        [] e.op = "fmt" -> LET c == Count(e.s, e.n) IN
             /\ e.ext = FmtExt(c, e.zone) /\ e.extutc = FmtExt(c, "UTC")
             /\ e.bas = FmtBasic(c, e.zone) /\ e.basutc = FmtBasic(c, "UTC")
             /\ e.strf = Strf(c, "UTC") /\ e.strfl = Strf(c, e.zone)
        [] e.op = "back" -> e.back.s = e.s /\ e.back.n = e.n
        [] e.op = "parse" -> IF Wellformed(e.text) THEN e.ok /\ Denotes(e.t, Parse(e.text)) ELSE ~e.ok
        [] e.op = "span" -> e.text = SpanText(Count(e.s, e.n))
        [] OTHER -> FALSE
TNext == Step /\ Ok /\ ev' = e /\ UNCHANGED <<x, t>>
TSpec == x = BZero /\ t = BZero /\ ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<x, t, ev, l>>
=============================================================================

----------------------------- MODULE SchemeTrace -----------------------------
EXTENDS Scheme, TraceBase
e == Ln
TNext ==
  /\ Step
  /\ ev' = e
  /\ CASE e.op = "new" -> res' = Empty
       [] e.op = "parse" -> /\ DoParse(e.text, e.ok, e.p)
                            /\ e.ok => (e.printed = PrintP(e.p) /\ e.len = Len(e.text) /\ e.stat = e.p)
                            /\ e.statok = e.ok /\ e.full = e.ok
       [] OTHER -> FALSE
TSpec == res = Empty /\ ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<res, ev, l>>
=============================================================================

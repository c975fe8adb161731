------------------------- MODULE SequenceNumberTrace -------------------------
EXTENDS SequenceNumber, TraceBase
e == Ln
TNext ==
  /\ Step
  /\ ev' = e
  /\ CASE e.op = "new" -> mx' = e.max /\ mn' = e.min /\ val' = (IF e.def THEN e.init ELSE e.b) /\ e.v = val'
                          /\ e.rmax = e.max /\ e.rmin = e.min
       [] e.op = "inc" -> Inc(e.post)
       [] e.op = "set" -> Set(e.b)
       [] e.op = "cmp" -> UNCHANGED <<mx, mn, val>> /\ LegalCmp(val, e.b, e.r) /\ LegalCmp(e.b, val, e.s)
       [] OTHER -> FALSE
TSpec == mx = 1 /\ mn = 0 /\ val = 0 /\ ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<mx, mn, val, ev, l>>
=============================================================================

----------------------------- MODULE GuardsTrace -----------------------------
EXTENDS Guards, TraceBase
e == Ln
TNext ==
  /\ Step
  /\ ev' = e
  /\ CASE e.op = "new" -> fv' = 0 /\ ff' = FALSE /\ gs' = << >> /\ runs' = << >>
       [] e.op = "fnew" -> FNew(e.v) [] e.op = "fassign" -> FAssign(e.v) [] e.op = "fassignf" -> FAssignF(e.v, e.f)
       [] e.op = "fcopy" -> FCopy [] e.op = "ffinal" -> FFinal
       [] e.op = "gpush" -> GPush [] e.op = "genable" -> GEnable [] e.op = "gdisable" -> GDisable [] e.op = "gpop" -> GPop(e.thrown)
       [] e.op = "tcmp" -> TCmp(e.a, e.b)
       [] OTHER -> FALSE
TSpec == fv = 0 /\ ff = FALSE /\ gs = << >> /\ runs = << >> /\ ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<vars, ev, l>>
=============================================================================

-------------------------- MODULE DepthBufferTrace --------------------------
EXTENDS DepthBuffer, TraceBase
e == Ln
Same == e.st.v = st'.v /\ e.st.frame = st'.frame /\ e.st.valid = st'.valid /\ e.st.time = st'.time /\ e.st.seq = st'.seq /\ e.st.dsin = st'.dsin
TNext ==
  /\ Step
  /\ ev' = e
  /\ CASE e.op = "new" -> New(e.n, e.o) /\ e.cells = cells'
       [] e.op = "update" -> Update(e.i + 1, e.v) /\ e.r = Replaces(e.i + 1, e.v) /\ e.cells = cells' /\ e.size = Len(cells)
       [] e.op = "reset" -> Reset /\ e.cells = cells'
       [] e.op = "stamp" -> Stamp(e.how, e.v, e.frame, e.t, e.seq) /\ Same
       [] e.op = "data" -> SetData(e.v) /\ Same
       [] e.op = "header" -> SetHeader(e.seq, e.dsin, e.frame) /\ Same
       [] e.op = "print" -> UNCHANGED <<cells, order, st>> /\ e.text = e.expect /\ Same
       [] OTHER -> FALSE
TSpec == cells = <<>> /\ order = "lt" /\ st = NoStamp /\ ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<cells, order, st, ev, l>>
=============================================================================

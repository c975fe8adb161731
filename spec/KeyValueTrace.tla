---------------------------- MODULE KeyValueTrace ----------------------------
EXTENDS KeyValue, TraceBase
e == Ln
TNext ==
  /\ Step
  /\ ev' = e
  /\ CASE e.op = "new" -> dir' = EmptyDir
       [] e.op = "insert" -> Insert(e.k, e.v)
       [] e.op = "get" -> Get(e.k)
       [] e.op = "query" -> /\ dir' = dir
                            /\ Complete(e.res, e) /\ e.again = e.res   \* the same after reset()
                            /\ e.past = <<FALSE, FALSE>>               \* next() stays false at the end
       [] OTHER -> FALSE
TSpec == dir = EmptyDir /\ ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<dir, ev, l>>
=============================================================================

--------------------------- MODULE TreeFileTrace ---------------------------
EXTENDS TreeFile, TraceBase
e == Ln
TNext ==
  /\ Step /\ ev' = e.op
  /\ CASE e.op = "new" -> t' = Tree(None, None, << >>)
       [] e.op = "tree" -> t' = e.t
       [] e.op = "save" -> t' = t /\ e.ok /\ e.lines = Lines(t, e.depth, << >>) /\ (e.unmark => ~e.changed)
       [] e.op = "reload" -> t' = t /\ e.ok /\ ~e.changed /\ e.t = Reloaded(t, e.depth, e.dir, e.n)
       [] e.op = "load" -> LET r == Load(t, e.dir, e.n, e.files, [proc |-> e.proc, comm |-> e.comm, keep |-> e.keep]) IN
            t' = r.t /\ e.t = r.t /\ e.ok = r.ok /\ (e.ok /\ e.unmark => ~e.changed)
       [] OTHER -> FALSE
TSpec == t = Tree(None, None, << >>) /\ ev = "init" /\ l = 0 /\ [][TNext]_<<t, ev, l>>
=============================================================================

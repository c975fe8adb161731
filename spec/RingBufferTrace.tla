-------------------------- MODULE RingBufferTrace --------------------------
EXTENDS RingBuffer, TraceBase
e == Ln
TNext ==
  /\ Step
  /\ CASE e.op = "new" -> New(e.c)
       [] e.op = "write" -> Write(e.v, e.ow)
       [] e.op = "read" -> Read
       [] e.op = "front" -> Front
       [] e.op = "skip" -> Skip
       [] e.op = "skipn" -> SkipN(e.n)
       [] e.op = "clear" -> Clear
       [] e.op = "set" -> SetAt(e.k, e.v)
       [] e.op = "setcap" -> SetCapacity(e.c)
       [] e.op = "fake" -> FakeWrite(e.n, e.v)
       [] e.op = "copy" -> Copy
       [] e.op = "assign" -> Assign(e.c, e.n)
       [] OTHER -> FALSE
  /\ ev' = e
TSpec == Init /\ l = 0 /\ [][TNext]_<<cap, buf, ev, l>>
=============================================================================

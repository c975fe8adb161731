---------------------------- MODULE RecordsTrace ----------------------------
EXTENDS Records, TraceBase
e == Ln
Msg == [l |-> e.l, s |-> e.s, c |-> e.c, o |-> e.o, d |-> e.d, f |-> e.f, n |-> e.n, t |-> e.t, w |-> now]
Sent == IF kind = "udp" THEN e.got = [i \in 1..Len(q) |-> Datagram(q[i])] ELSE e.got = <<>>
Stored == {e.dbs[i].n : i \in 1..Len(e.dbs)} = DOMAIN dbs' /\ \A i \in 1..Len(e.dbs) : e.dbs[i].r = dbs'[e.dbs[i].n]
TNext ==
  /\ Step
  /\ CASE e.op = "new" -> /\ now' = [s |-> e.s, n |-> 0] /\ kind' = "" /\ sys' = <<>> /\ lev' = 0 /\ rot' = FALSE /\ last' = 0 /\ q' = <<>>
                          /\ dbs' = [x \in {} |-> 0] /\ dirs' = {}
       [] e.op = "make" -> Make(e.k, e.sys, e.lev, e.rot)
       [] e.op = "push" -> Push(Msg)
       [] e.op = "sync" -> Sync /\ Sent /\ Stored
       [] e.op = "tick" -> Tick(e.s, e.n)
       [] e.op = "dir" -> Dir(e.n)
       [] OTHER -> FALSE
TSpec == kind = "" /\ sys = <<>> /\ lev = 0 /\ rot = FALSE /\ last = 0 /\ now = [s |-> 0, n |-> 0] /\ q = <<>> /\ dbs = [x \in {} |-> 0] /\ dirs = {} /\ l = 0
         /\ [][TNext]_<<vars, l>>
=============================================================================

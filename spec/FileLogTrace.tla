---------------------------- MODULE FileLogTrace ----------------------------
EXTENDS FileLog, TraceBase
e == Ln
SeesNow(n, c) == IF out'.on /\ n = out'.name THEN StartsWith(files'[n].c, c) /\ Len(c) >= Len(files'[n].c) - behind' ELSE c = files'[n].c
Seen == /\ {e.dir[i].n : i \in 1..Len(e.dir)} = DOMAIN files'
        /\ \A i \in 1..Len(e.dir) : LET n == e.dir[i].n IN e.dir[i].d = files'[n].d /\ (~e.dir[i].d => SeesNow(n, e.dir[i].c))
TNext ==
  /\ Step
  /\ CASE e.op = "new" -> files' = [x \in {} |-> 0] /\ now' = e.s /\ out' = Off /\ behind' = 0
       [] e.op = "open" -> Open(e.n, e.rot, e.older, e.zip, e.flush)
       [] e.op = "log" -> Log(e.t, e.k)
       [] e.op = "close" -> Close
       [] e.op = "tick" -> Tick(e.s)
       [] e.op = "put" -> Put(e.n, e.t, e.m)
       [] e.op = "dir" -> Mkdir(e.n)
       [] OTHER -> FALSE
  /\ Seen
TSpec == files = [x \in {} |-> 0] /\ now = 0 /\ out = Off /\ behind = 0 /\ l = 0 /\ [][TNext]_<<fvars, l>>
=============================================================================

----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, TraceBase
e == Ln
None == [opts |-> <<>>, non |-> <<>>]
TNext ==
  /\ Step
  /\ ev' = [op |-> e.op]
  /\ CASE e.op = "new" -> dir' = EmptyDir /\ regs' = <<>> /\ cl' = None
       [] e.op = "cmd" -> cl' = [opts |-> e.opts, non |-> e.non] /\ UNCHANGED <<dir, regs>> /\ e.ok
       [] e.op = "set" -> ToldOf(e.told, e.k, e.v) /\ Set(e.k, e.v) /\ e.fresh = (e.k \notin Keys)
       [] e.op = "setval" -> \* a typed value: its stored text denotes it
            /\ ToldOf(e.told, e.k, e.text) /\ Set(e.k, e.text)
            /\ Denotes(e.t, e.text) = Ok(e.v)
       [] e.op = "insert" -> e.told = <<>> /\ Set(e.k, e.v) /\ e.fresh = (e.k \notin Keys)
       [] e.op = "register" -> ToldAtOnce(e.told, e.o, e.k) /\ Register(e.o, e.k)
       [] e.op = "unregister" -> e.told = <<>> /\ Unregister(e.o)
       [] e.op \in {"crash", "hang"} -> FALSE
       [] OTHER ->
            /\ UNCHANGED <<dir, regs, cl>>
            /\ e.told = <<>>
            /\ CASE e.op = "get" -> e.found = (e.k \in Keys) /\ e.has = (e.k \in Keys) /\ e.v = (IF e.k \in Keys THEN dir[e.k] ELSE <<42>>)
                 [] e.op = "query" -> Complete(e.res, e)
                 [] e.op = "dump" -> \A k \in Keys : FindFrom(e.text, k \o B(" = '") \o dir[k] \o B("'") \o <<10>>, 1) # 0
                 [] e.op = "read" -> Read(e.how, e.k, e.n, e.t, e.init) = [ok |-> e.ok, v |-> e.v]
                 [] e.op = "batch" -> Batch(e.prefix, e.ms) = [ok |-> e.ok, vals |-> e.vals]
                 [] e.op = "list" -> ListRead(e.prefix, e.ms) = [ok |-> e.ok, out |-> e.out]
                 [] OTHER -> FALSE
TSpec == dir = EmptyDir /\ regs = <<>> /\ cl = None /\ ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<dir, regs, cl, ev, l>>
=============================================================================

--------------------------- MODULE ExitOrderTrace ---------------------------
EXTENDS ExitOrder, ConcTraceBase
vars == <<vars0, l>>
New == /\ e.op = "new" /\ kind' = e.kind /\ up' = [k \in DOMAIN e.kind |-> FALSE] /\ dead' = up' /\ made' = [k \in DOMAIN e.kind |-> ""]
       /\ exits' = <<>> /\ frames' = <<>> /\ phase' = "main"
Line == CASE e.op = "new" -> New
          [] e.op = "use" -> Use(e.k)
          \* a constructor sees itself as the only one there is
          [] e.op = "begin" -> Begin(e.k)
          [] e.op = "end" -> End(e.k)
          \* "same": the instance the previous use gave
          [] e.op = "give" -> \/ e.how = "dead" /\ Give(e.k, "dead")
                              \/ e.how = "same" /\ Give(e.k, "old")
                              \/ e.how = "other" /\ Give(e.k, "new")
                              \* the static variable is the same one again
                              \/ e.how = "same" /\ Static(e.k) /\ Give(e.k, "new")
                              \/ e.how = "same" /\ Alloc(e.k) /\ dead[e.k] /\ Give(e.k, "new")
          [] e.op = "exit" -> Exit
          [] e.op = "dtor" -> Dtor(e.k)
          [] e.op = "dtorend" -> DtorEnd(e.k)
          [] e.op = "over" -> Over
          [] OTHER -> FALSE
TInit == Init0(<<>>) /\ l = 0
TNext == (Step /\ Line) \/ (More /\ e.op # "new" /\ Silent /\ UNCHANGED l)
TSpec == TInit /\ [][TNext]_vars
=============================================================================

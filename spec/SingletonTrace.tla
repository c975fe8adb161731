--------------------------- MODULE SingletonTrace ---------------------------
EXTENDS Singleton, ConcTraceBase
VARIABLE was
vars == <<pend, now, static, dead, obj, made, mk, st, got, was, l>>
New == /\ e.op = "new" /\ now' = 0 /\ pend' = [t \in 0..e.th |-> NoCall] /\ got' = [t \in 0..e.th |-> 0]
       /\ static' = e.static /\ dead' = e.dead /\ obj' = 0 /\ made' = e.made /\ mk' = 0 /\ st' = "" /\ was' = e.dead
Act == CASE e.ev = "dead" -> IF e.strict THEN Fail(e.th) ELSE Revive(e.th)
         [] e.ev = "begin" -> Begin(e.th)
         [] e.ev = "throw" -> Throw(e.th, was)
         [] e.ev = "end" -> Complete(e.th, e.no)
         [] e.ev = "sched" -> Schedule(e.th)
         \* by delete only, and the whole instance
         [] e.ev = "dtor" -> ~static /\ e.no = obj /\ Destroy(e.th)
         [] OTHER -> FALSE
Line == CASE e.op = "new" -> New
          [] e.op = "call" -> Call(e.th, e.f, e.dl) /\ UNCHANGED <<obs, now, was>>
          [] e.op = "ret" /\ e.f = "get" -> Ret(e.th, TRUE) /\ got[e.th] = e.no /\ UNCHANGED <<obs, now, was>>
          [] e.op = "ret" /\ ~static -> Ret(e.th, TRUE) /\ UNCHANGED <<obs, now, was>>
          \* destroying a static instance has no effect that is seen: it takes place with the return
          [] e.op = "ret" -> /\ Waiting(e.th) /\ pend[e.th].f = "destroy" /\ obj # 0 /\ mk = 0 /\ (\A u \in Threads \ {e.th} : pend[u] = NoCall)
                             /\ obj' = 0 /\ dead' = TRUE /\ pend' = [pend EXCEPT ![e.th] = NoCall] /\ UNCHANGED <<static, made, mk, st, got, now, was>>
          [] e.op = "act" -> Act /\ UNCHANGED now /\ was' = (dead' \/ (was /\ obj' = 0))
          [] e.op = "tick" -> Pass(e.now) /\ UNCHANGED <<obs, pend, was>>
          [] e.op = "quiet" -> Resting /\ UNCHANGED <<obs, pend, now, was>>
          [] e.op = "end" -> NonePending /\ mk = 0 /\ UNCHANGED <<obs, pend, now, was>>
          [] OTHER -> FALSE
TInit == /\ l = 0 /\ now = 0 /\ pend = <<>> /\ got = <<>> /\ static = FALSE /\ dead = FALSE /\ obj = 0 /\ made = 0 /\ mk = 0 /\ st = "" /\ was = FALSE
TNext == (Step /\ Line) \/ (More /\ e.op # "new" /\ (\E t \in Threads : Effect(t)) /\ UNCHANGED <<was, l>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================

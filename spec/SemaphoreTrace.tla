--------------------------- MODULE SemaphoreTrace ---------------------------
EXTENDS Semaphore, ConcTraceBase
vars == <<pend, now, cnt, l>>
New == e.op = "new" /\ cnt' = e.c /\ now' = 0 /\ pend' = [t \in 0..e.th |-> NoCall]
Line == CASE e.op = "new" -> New
          [] e.op = "call" -> Call(e.th, e.f, e.dl) /\ UNCHANGED <<obj, now>>
          [] e.op = "ret" -> Ret(e.th, e.res) /\ UNCHANGED <<obj, now>>
          [] e.op = "tick" -> Pass(e.now) /\ UNCHANGED <<obj, pend>>
          [] e.op = "quiet" -> (\A t \in Threads : pend[t] = NoCall \/ Held(t)) /\ UNCHANGED <<obj, pend, now>>
          [] e.op = "end" -> NonePending /\ cnt = 0 /\ UNCHANGED <<obj, pend, now>>
          [] OTHER -> FALSE
TInit == Init(0, 0) /\ l = 0
TNext == (Step /\ Line) \/ (Observing /\ (\E t \in Threads : Effect(t)) /\ UNCHANGED l)
TSpec == TInit /\ [][TNext]_vars
=============================================================================

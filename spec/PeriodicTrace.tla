---------------------------- MODULE PeriodicTrace ----------------------------
EXTENDS Periodic, ConcTraceBase
vars == <<pend, now, on, per, base, due, l>>
New == e.op = "new" /\ on' = FALSE /\ per' = e.p /\ base' = 0 /\ due' = 0 /\ now' = 0 /\ pend' = [t \in 0..e.th |-> NoCall]
Line == CASE e.op = "new" -> New
          [] e.op = "call" -> Call(e.th, e.f, e.dl) /\ UNCHANGED <<obj, now>>
          [] e.op = "ret" -> (e.f = "period" => e.v = pend[e.th].dl) /\ Ret(e.th, e.res) /\ UNCHANGED <<obj, now>>
          [] e.op = "tick" -> Time(e.now)
          [] e.op = "quiet" -> (\A t \in Threads : pend[t] = NoCall \/ Held(t)) /\ UNCHANGED <<obj, pend, now>>
          \* the body has ended; no system thread and no timer was left behind
          [] e.op = "left" -> e.n = 0 /\ e.timers = 0 /\ NonePending /\ UNCHANGED <<obj, pend, now>>
          [] e.op = "end" -> NonePending /\ ~on /\ UNCHANGED <<obj, pend, now>>
          [] OTHER -> FALSE
TInit == Init(0, 1) /\ l = 0
TNext == (Step /\ Line) \/ (Observing /\ (\E t \in Threads : Effect(t)) /\ UNCHANGED l)
TSpec == TInit /\ [][TNext]_vars
=============================================================================

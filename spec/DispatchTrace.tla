---------------------------- MODULE DispatchTrace ----------------------------
EXTENDS Dispatch, ConcTraceBase
vars == <<pend, now, rs, ex, ops, pos, lim, st, first, per, due, l>>
New == /\ e.op = "new" /\ rs' = "off" /\ ex' = FALSE /\ ops' = <<>> /\ pos' = 0 /\ lim' = 0 /\ st' = "" /\ first' = FALSE /\ per' = e.p /\ due' = 0
       /\ now' = 0 /\ pend' = [t \in 0..e.th |-> NoCall]
Act == CASE e.ev = "exec" -> e.own /\ Exec(e.id)
         [] e.ev = "done" -> Finish(e.id)
         [] e.ev = "add" -> Add(e.id)
         [] e.ev = "stop" -> StopSelf
         [] OTHER -> FALSE
Line == CASE e.op = "new" -> New
          [] e.op = "call" -> Call(e.th, e.f, e.dl) /\ UNCHANGED <<obj, now>>
          [] e.op = "ret" -> Ret(e.th, e.res) /\ UNCHANGED <<obj, now>>
          [] e.op = "act" -> Act /\ UNCHANGED <<now, pend>>
          [] e.op = "tick" -> Pass(e.now) /\ UNCHANGED <<obj, pend>>
          [] e.op = "quiet" -> Resting /\ UNCHANGED <<obj, pend, now>>
          [] e.op = "left" -> e.n = 0 /\ e.timers = 0 /\ NonePending /\ Out /\ UNCHANGED <<obj, pend, now>>
          [] e.op = "end" -> NonePending /\ Out /\ UNCHANGED <<obj, pend, now>>
          [] OTHER -> FALSE
TInit == Init(0, 1) /\ l = 0
\* Steps that cannot be seen are chosen only in front of lines they matter to
Close == {"ret", "quiet", "end", "left"}
TNext == (Step /\ Line)
         \/ (More /\ e.op # "new" /\ (\E t \in Threads : e.op \in Close /\ Effect(t)) /\ UNCHANGED l)
         \* a start takes effect and the thread begins
         \/ (More /\ e.op \in {"tick", "act"} /\ UNCHANGED <<now, l, ops, pos, lim, st, per>>
              /\ \E t \in Threads : /\ Waiting(t) /\ pend[t].f = "start" /\ Out /\ Done(t, TRUE)
                                    /\ rs' = "run" /\ ex' = TRUE /\ due' = now + per /\ first' = TRUE)
         \/ (More /\ e.op \in {"tick", "act", "quiet", "ret"} /\ Start /\ UNCHANGED <<pend, now, l>>)
         \/ (More /\ ((e.op = "tick" /\ ~first) \/ (e.op = "act" /\ e.ev = "exec") \/ (e.op \in Close /\ \E t \in Threads : Waiting(t) /\ pend[t].f \in {"stop", "del"}))
              /\ Pass1 /\ UNCHANGED <<pend, now, l>>)
         \/ (More /\ e.op \in Close /\ End /\ UNCHANGED <<pend, now, l>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================

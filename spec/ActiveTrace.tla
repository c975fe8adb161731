----------------------------- MODULE ActiveTrace -----------------------------
EXTENDS Active, ConcTraceBase
vars == <<pend, now, rs, ex, q, cur, st, must, l>>
New == /\ e.op = "new" /\ rs' = "off" /\ ex' = FALSE /\ q' = <<>> /\ cur' = 0 /\ st' = "" /\ must' = FALSE /\ now' = 0
       /\ pend' = [t \in 0..(e.th + 1) |-> NoCall]
Act == CASE e.ev = "start" -> e.own /\ Start /\ UNCHANGED pend
         [] e.ev = "stop" -> e.own /\ Stop /\ UNCHANGED pend
         [] e.ev = "exec" -> e.own /\ Exec(e.id) /\ UNCHANGED pend
         [] e.ev = "done" -> Finish(e.id) /\ UNCHANGED pend
         [] e.ev = "del" -> e.own /\ Del(e.id) /\ UNCHANGED pend
         [] e.ev = "drop" -> \/ e.own /\ Drain(e.id) /\ UNCHANGED pend
                             \/ (\E t \in Threads : Refuse(t, e.id)) /\ UNCHANGED obj
         [] OTHER -> FALSE
Line == CASE e.op = "new" -> New
          [] e.op = "call" -> Call(e.th, e.f, e.dl) /\ UNCHANGED <<obj, now>>
          [] e.op = "ret" -> Ret(e.th, IF e.f = "queue" THEN pend[e.th].res ELSE e.res) /\ UNCHANGED <<obj, now>>
          [] e.op = "act" -> Act /\ UNCHANGED now
          [] e.op = "tick" -> Pass(e.now) /\ UNCHANGED <<obj, pend>>
          [] e.op = "quiet" -> Resting /\ UNCHANGED <<obj, pend, now>>
          \* nothing waits, everything that was queued is gone, and no system thread was left behind
          [] e.op = "left" -> e.n = 0 /\ NonePending /\ Out /\ q = <<>> /\ UNCHANGED <<obj, pend, now>>
          [] e.op = "end" -> NonePending /\ Out /\ q = <<>> /\ UNCHANGED <<obj, pend, now>>
          [] OTHER -> FALSE
TInit == Init(0) /\ l = 0
TNext == (Step /\ Line) \/ (More /\ e.op # "new" /\ (\E t \in Threads : Effect(t)) /\ UNCHANGED l)
TSpec == TInit /\ [][TNext]_vars
=============================================================================

--------------------------- MODULE LifecycleTrace ---------------------------
EXTENDS Lifecycle, ConcTraceBase
vars == <<pend, now, rs, fin, ex, l>>
New == e.op = "new" /\ rs' = "idle" /\ fin' = TRUE /\ ex' = FALSE /\ now' = 0 /\ pend' = [t \in 0..e.th |-> NoCall]
BodyLine == CASE e.ev = "begin" -> Begin
              [] e.ev = "exec" -> rs = "body" /\ e.v = ex /\ UNCHANGED obj
              [] e.ev = "self" -> rs = "body" /\ e.v /\ UNCHANGED obj
              [] OTHER -> End
Line == CASE e.op = "new" -> New
          [] e.op = "call" -> CallL(e.th, e.f, e.dl) /\ UNCHANGED <<obj, now>>
          [] e.op = "ret" -> Ret(e.th, e.res) /\ UNCHANGED <<obj, now>>
          [] e.op = "body" -> BodyLine /\ UNCHANGED <<pend, now>>
          [] e.op = "tick" -> Pass(e.now) /\ UNCHANGED <<obj, pend>>
          [] e.op = "quiet" -> Resting /\ UNCHANGED <<obj, pend, now>>
          \* nothing waits, the body has ended, and no system thread was left behind
          [] e.op = "left" -> e.n = 0 /\ NonePending /\ Out /\ UNCHANGED <<obj, pend, now>>
          [] e.op = "end" -> NonePending /\ Out /\ UNCHANGED <<obj, pend, now>>
          [] OTHER -> FALSE
TInit == Init(0) /\ l = 0
TNext == (Step /\ Line) \/ (More /\ e.op # "new" /\ (Over \/ \E t \in Threads : Effect(t)) /\ UNCHANGED l)
TSpec == TInit /\ [][TNext]_vars
=============================================================================

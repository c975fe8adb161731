----------------------------- MODULE Semaphore -----------------------------
\* A counting semaphore: blocking, immediate and timed waits.
EXTENDS Conc
VARIABLE cnt                              \* available permits
obj == <<cnt>>
Timed == {"abs", "rel"}
Take(t) == cnt > 0 /\ cnt' = cnt - 1 /\ Done(t, TRUE)
Refuse(t) == UNCHANGED obj /\ Done(t, FALSE)
Effect(t) ==
  /\ Waiting(t)
  /\ UNCHANGED now
  /\ CASE pend[t].f = "post" -> cnt' = cnt + 1 /\ Done(t, TRUE)
       [] pend[t].f = "try" -> IF cnt > 0 THEN Take(t) ELSE Refuse(t)
       [] pend[t].f \in Timed -> IF cnt > 0 THEN Take(t) ELSE Expired(t) /\ Refuse(t)
       [] OTHER -> Take(t)
Held(t) == Waiting(t) /\ pend[t].f \notin {"post", "try"} /\ cnt = 0 /\ ~(pend[t].f \in Timed /\ Expired(t))
Init(n, c) == cnt = c /\ now = 0 /\ pend = [t \in 0..n |-> NoCall]
=============================================================================

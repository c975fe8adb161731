------------------------------- MODULE Mutex -------------------------------
\* A recursive mutex: blocking, immediate and timed requests.
EXTENDS Conc
VARIABLES owner, cnt                    \* the holding thread (0: none) and how often it has locked
obj == <<owner, cnt>>
Free(t) == owner \in {0, t}
Timed == {"abs", "rel"}
Grant(t) == Free(t) /\ owner' = t /\ cnt' = cnt + 1 /\ Done(t, TRUE)
Refuse(t) == UNCHANGED obj /\ Done(t, FALSE)
Release(t) == owner = t /\ cnt' = cnt - 1 /\ owner' = (IF cnt = 1 THEN 0 ELSE t) /\ Done(t, TRUE)
Effect(t) ==
  /\ Waiting(t)
  /\ UNCHANGED now
  /\ CASE pend[t].f = "unlock" -> Release(t)
       [] pend[t].f = "try" -> IF Free(t) THEN Grant(t) ELSE Refuse(t)
       [] pend[t].f \in Timed -> IF Free(t) THEN Grant(t) ELSE Expired(t) /\ Refuse(t)
       [] OTHER -> Grant(t)
\* Whether the pending call of t can do nothing but wait
Held(t) == Waiting(t) /\ pend[t].f \notin {"unlock", "try"} /\ ~Free(t) /\ ~(pend[t].f \in Timed /\ Expired(t))
Init(n) == owner = 0 /\ cnt = 0 /\ now = 0 /\ pend = [t \in 1..n |-> NoCall]
=============================================================================

-------------------------------- MODULE Conc --------------------------------
(* Calls of several threads on one object: a call is made, takes effect at one  *)
(* instant, and returns; time passes in between. A module that extends this one *)
(* defines Effect(t): the ways in which the pending call of t can take effect.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pend, now
Never == 2000000000
NoCall == [f |-> "", dl |-> 0, ph |-> "", res |-> FALSE]
Threads == DOMAIN pend
Waiting(t) == pend[t].ph = "wait"
Expired(t) == pend[t].dl <= now
Call(t, f, dl) == pend[t] = NoCall /\ pend' = [pend EXCEPT ![t] = [f |-> f, dl |-> dl, ph |-> "wait", res |-> FALSE]]
Done(t, r) == pend' = [pend EXCEPT ![t].ph = "done", ![t].res = r]
Ret(t, r) == pend[t].ph = "done" /\ pend[t].res = r /\ pend' = [pend EXCEPT ![t] = NoCall]
Pass(n) == n > now /\ now' = n
NonePending == \A t \in Threads : pend[t] = NoCall
=============================================================================

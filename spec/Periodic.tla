------------------------------ MODULE Periodic ------------------------------
(* A periodic thread: thread 1 is its body, which computes and waits for its    *)
(* next period; somebody else starts and stops it and changes the period.       *)
EXTENDS Conc
VARIABLES on,     \* the body is running
          per,    \* period
          base,   \* instant from which the periods count
          due     \* end of the period to be waited for next (of several that are over: the last one)
obj == <<on, per, base, due>>
Waits == {"wait", "loop"}     \* "loop": waits, again and again until it is stopped
Last(n) == base + ((n - base) \div per) * per
Time(n) == Pass(n) /\ due' = (IF on /\ due <= n THEN Last(n) ELSE due) /\ UNCHANGED <<on, per, base, pend>>
Next1 == now >= due /\ due' = Last(now) + per /\ UNCHANGED <<on, per, base>>
Stops == {"stop", "del"}
Set(t, v) == pend' = [pend EXCEPT ![t].ph = "done", ![t].res = TRUE, ![t].dl = v]
Stopping == \E k \in Threads : pend[k].f \in Stops
Ended == pend[1] = NoCall \/ pend[1].ph = "done"
Effect(t) ==
  /\ UNCHANGED now
  /\ \/ /\ Waiting(t)
        /\ CASE pend[t].f = "wait" -> Next1 /\ Done(t, TRUE)
             \* having woken up it looks whether it is to stop
             [] pend[t].f = "loop" -> Next1 /\ pend' = [pend EXCEPT ![t].ph = "mid"]
             [] pend[t].f = "start" -> ~on /\ on' = TRUE /\ base' = now /\ due' = now + per /\ per' = per /\ Done(t, TRUE)
             [] pend[t].f = "setp" -> /\ per' = pend[t].dl /\ on' = on
                                      /\ IF on THEN base' = now /\ due' = now + per' /\ Done(t, TRUE)
                                         ELSE UNCHANGED <<base, due>> /\ \E r \in BOOLEAN : Done(t, r)
             [] pend[t].f = "period" -> Set(t, per) /\ UNCHANGED obj
             [] pend[t].f = "jump" -> Done(t, TRUE) /\ UNCHANGED obj
             [] OTHER -> Ended /\ on' = FALSE /\ base' = 0 /\ due' = 0 /\ per' = per /\ Done(t, TRUE)
     \/ /\ pend[t].ph = "mid"
        /\ UNCHANGED obj
        /\ \/ pend' = [pend EXCEPT ![t].ph = "wait"]
           \/ Stopping /\ Done(t, TRUE)
Held(t) == Waiting(t) /\ \/ pend[t].f \in Waits /\ now < due
                         \/ pend[t].f \in Stops /\ Waiting(1) /\ now < due
Init(n, p) == on = FALSE /\ per = p /\ base = 0 /\ due = 0 /\ now = 0 /\ pend = [t \in 0..n |-> NoCall]
=============================================================================

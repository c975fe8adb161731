----------------------------- MODULE PeriodicMC -----------------------------
\* Histories of a periodic thread in units of time; printed for replay.
EXTENDS Periodic, Json
CONSTANTS Pers, MaxNow
VARIABLES ev, there, missed
vars == <<pend, now, on, per, base, due, ev, there, missed>>
Quiet == \A t \in Threads : pend[t] = NoCall \/ Held(t)
Ask(t, f, us) ==
  /\ Quiet /\ pend[t] = NoCall /\ there
  /\ f = "start" => ~on
  /\ f \in Waits => on
  /\ f \in {"setp"} => \A k \in Threads : pend[k].f \notin {"stop", "del"}
  /\ t = 1 => on /\ pend[2].f \notin {"stop", "del"}
  /\ there' = (f # "del")
  /\ Call(t, f, us)
  /\ UNCHANGED <<obj, now, missed>> /\ ev' = [op |-> "do", th |-> t, f |-> f, us |-> 100 * us]
Lin(t) == Effect(t) /\ UNCHANGED there /\ missed' = (IF pend[t].f \in {"wait", "loop", "start"} \/ ~on' \/ per' # per THEN 0 ELSE missed) /\ ev' = [op |-> "lin"]
Back(t) == pend[t].ph = "done" /\ Ret(t, pend[t].res) /\ UNCHANGED <<obj, now, there, missed>> /\ ev' = [op |-> "ret"]
Tick == Quiet /\ now < MaxNow /\ Time(now + 1) /\ UNCHANGED there
        /\ missed' = (IF on /\ (now + 1 - base) % per = 0 /\ missed < 3 THEN missed + 1 ELSE missed) /\ ev' = [op |-> "tick", us |-> 100]
Next == \/ \E f \in {"wait", "loop", "period"} : Ask(1, f, 0)
        \/ \E f \in {"start", "stop", "del", "jump", "period"} : Ask(2, f, 0)
        \/ \E t \in {1, 2}, p \in Pers : Ask(t, "setp", p)
        \/ \E t \in {1, 2} : Lin(t) \/ Back(t)
        \/ Tick
P0 == CHOOSE p \in Pers : \A q \in Pers : p <= q
MInit == Init(2, P0) /\ ev = [op |-> "init"] /\ there = TRUE /\ missed = 0
Spec == MInit /\ [][Next]_vars
View == <<pend, now, on, per, base, due, there, missed>>
\* A body that waits does so for at most one period
Sound == (on => due - now <= per /\ base <= now) /\ (on /\ Waiting(1) /\ Quiet /\ pend[1].f \in Waits => now < due)
PrintEdge == PrintT(ToJson([E |-> [s |-> View, e |-> ev', t |-> View']]))
=============================================================================

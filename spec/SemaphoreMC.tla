---------------------------- MODULE SemaphoreMC ----------------------------
\* All histories of the semaphore in which calls are made while nothing can go on by itself; printed for replay.
EXTENDS Semaphore, Json
CONSTANTS N, C, MaxCnt, MaxNow, Dls
VARIABLES ev
vars == <<pend, now, cnt, ev>>
Quiet == \A t \in Threads : pend[t] = NoCall \/ Held(t)
Ask(t, f, us) ==
  /\ Quiet /\ pend[t] = NoCall
  /\ f = "post" => cnt < MaxCnt
  /\ Call(t, f, CASE f = "abs" -> us [] f = "rel" -> now + us [] OTHER -> Never)
  /\ UNCHANGED <<obj, now>> /\ ev' = [op |-> "do", th |-> t, f |-> f, us |-> us]
Lin(t) == Effect(t) /\ ev' = [op |-> "lin"]
Back(t) == pend[t].ph = "done" /\ Ret(t, pend[t].res) /\ UNCHANGED <<obj, now>> /\ ev' = [op |-> "ret"]
Tick == Quiet /\ now < MaxNow /\ Pass(now + 1) /\ UNCHANGED <<obj, pend>> /\ ev' = [op |-> "tick", us |-> 1]
Next == \/ \E t \in 1..N, f \in {"wait", "try", "post"} : Ask(t, f, 0)
        \/ \E t \in 1..N, f \in Timed, us \in Dls : Ask(t, f, us)
        \/ \E t \in 1..N : Lin(t)
        \/ \E t \in 1..N : Back(t)
        \/ Tick
MInit == Init(N, C) /\ ev = [op |-> "init"]
Spec == MInit /\ [][Next]_vars
View == <<pend, now, cnt>>
NoLostWaiter == cnt >= 0 /\ (Quiet => \A t \in Threads : Waiting(t) => cnt = 0)
PrintEdge == PrintT(ToJson([E |-> [s |-> [p |-> pend, n |-> now, c |-> cnt], e |-> ev', t |-> [p |-> pend', n |-> now', c |-> cnt']]]))
=============================================================================

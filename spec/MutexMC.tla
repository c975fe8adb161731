------------------------------ MODULE MutexMC ------------------------------
\* All histories of the mutex in which calls are made while nothing can go on by itself; printed for replay.
EXTENDS Mutex, Json
CONSTANTS N, MaxCnt, MaxNow, Dls
VARIABLES ev
vars == <<pend, now, owner, cnt, ev>>
Quiet == \A t \in Threads : pend[t] = NoCall \/ Held(t)
Ask(t, f, us) ==
  /\ Quiet /\ pend[t] = NoCall
  /\ f = "unlock" => owner = t
  /\ Call(t, f, CASE f = "abs" -> us [] f = "rel" -> now + us [] OTHER -> Never)
  /\ UNCHANGED <<obj, now>> /\ ev' = [op |-> "do", th |-> t, f |-> f, us |-> us]
Lin(t) == Effect(t) /\ ev' = [op |-> "lin"]
Back(t) == pend[t].ph = "done" /\ Ret(t, pend[t].res) /\ UNCHANGED <<obj, now>> /\ ev' = [op |-> "ret"]
Tick == Quiet /\ now < MaxNow /\ Pass(now + 1) /\ UNCHANGED <<obj, pend>> /\ ev' = [op |-> "tick", us |-> 1]
Next == \/ \E t \in 1..N, f \in {"lock", "try", "unlock"} : Ask(t, f, 0)
        \/ \E t \in 1..N, f \in Timed, us \in Dls : Ask(t, f, us)
        \/ \E t \in 1..N : Lin(t)
        \/ \E t \in 1..N : Back(t)
        \/ Tick
MInit == Init(N) /\ ev = [op |-> "init"]
Spec == MInit /\ [][Next]_vars
Bound == cnt <= MaxCnt
View == <<pend, now, owner, cnt>>
\* The mutex is held exactly while it was locked more often than unlocked, and nobody waits for a free mutex
Consistent == (owner = 0) = (cnt = 0)
NoLostWaiter == Quiet => \A t \in 1..N : Waiting(t) => owner \notin {0, t}
PrintEdge == PrintT(ToJson([E |-> [s |-> [p |-> pend, n |-> now, o |-> owner, c |-> cnt], e |-> ev', t |-> [p |-> pend', n |-> now', o |-> owner', c |-> cnt']]]))
=============================================================================

------------------------------ MODULE RWLockMC ------------------------------
\* All histories of the read-write lock in which calls are made while nothing can go on by itself; printed for replay.
EXTENDS RWLock, Json
CONSTANTS N, MaxRd, MaxNow, Dls
VARIABLES ev
vars == <<pend, now, rd, wr, ev>>
Quiet == \A t \in Threads : pend[t] = NoCall \/ Held(t)
Ask(t, f, us) ==
  /\ Quiet /\ pend[t] = NoCall /\ Domain(t, f)
  /\ Call(t, f, CASE f \in {"rabs", "wabs"} -> us [] f \in {"rrel", "wrel"} -> now + us [] OTHER -> Never)
  /\ UNCHANGED <<obj, now>> /\ ev' = [op |-> "do", th |-> t, f |-> f, us |-> us]
Lin(t) == Effect(t) /\ ev' = [op |-> "lin"]
Back(t) == pend[t].ph = "done" /\ Ret(t, pend[t].res) /\ UNCHANGED <<obj, now>> /\ ev' = [op |-> "ret"]
Tick == Quiet /\ now < MaxNow /\ Pass(now + 1) /\ UNCHANGED <<obj, pend>> /\ ev' = [op |-> "tick", us |-> 1]
Next == \/ \E t \in 1..N, f \in {"rlock", "tryr", "wlock", "tryw", "unlock"} : Ask(t, f, 0)
        \/ \E t \in 1..N, f \in Timed, us \in Dls : Ask(t, f, us)
        \/ \E t \in 1..N : Lin(t)
        \/ \E t \in 1..N : Back(t)
        \/ Tick
MInit == Init(N) /\ ev = [op |-> "init"]
Spec == MInit /\ [][Next]_vars
Bound == \A t \in Threads : rd[t] <= MaxRd
View == <<pend, now, rd, wr>>
\* Never a writer together with a reader, and nobody waits for what is available
Exclusive == wr # 0 => \A t \in Threads : rd[t] = 0
NoLostWaiter == Quiet => \A t \in Threads : Waiting(t) => ~Can(t)
PrintEdge == PrintT(ToJson([E |-> [s |-> [p |-> pend, n |-> now, r |-> rd, w |-> wr], e |-> ev', t |-> [p |-> pend', n |-> now', r |-> rd', w |-> wr']]]))
=============================================================================

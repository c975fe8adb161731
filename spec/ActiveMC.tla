------------------------------ MODULE ActiveMC ------------------------------
(* All histories of an active object: thread 1 owns it, the others queue and    *)
(* stop. Operation k: 1 plain, 2 takes one unit of time, 3 queues another one.  *)
EXTENDS Active, Json
CONSTANTS N, MaxQ, MaxNow
VARIABLES ev, due, there
vars == <<pend, now, rs, ex, q, cur, st, must, ev, due, there>>
B == N + 1
Quiet == Resting /\ ~due
Ask(t, f, k) ==
  /\ Quiet /\ pend[t] = NoCall /\ there
  /\ f = "start" => rs \in {"off", "over"}
  /\ f = "queue" => Len(q) < MaxQ
  /\ there' = (f # "del") /\ (f = "del" => \A i \in Threads : pend[i] = NoCall)
  /\ Call(t, f, k)
  /\ UNCHANGED <<obj, now, due>> /\ ev' = [op |-> "do", th |-> t, f |-> f, k |-> k]
Lin(t) == Effect(t) /\ UNCHANGED <<due, there>> /\ ev' = [op |-> "lin"]
Drop(t) == Refuse(t, pend[t].dl) /\ UNCHANGED <<obj, now, due, there>> /\ ev' = [op |-> "lin"]
Busy == pend[B] # NoCall
Body == /\ UNCHANGED there /\ ev' = [op |-> "lin"] /\ UNCHANGED now
        /\ \/ Start /\ UNCHANGED <<due, pend>>
           \/ q # <<>> /\ Exec(Head(q)) /\ due' = (cur' # 2) /\ IF cur' = 3 THEN pend' = [pend EXCEPT ![B] = [NoCall EXCEPT !.f = "queue", !.dl = 1, !.ph = "wait"]] ELSE UNCHANGED pend
           \/ due /\ ~Busy /\ Finish(cur) /\ due' = FALSE /\ UNCHANGED pend
           \/ Del(cur) /\ UNCHANGED <<due, pend>>
           \/ q # <<>> /\ Drain(Head(q)) /\ UNCHANGED <<due, pend>>
           \/ Stop /\ UNCHANGED <<due, pend>>
Back(t) == pend[t].ph = "done" /\ Ret(t, pend[t].res) /\ UNCHANGED <<obj, now, due, there>> /\ ev' = [op |-> "ret"]
Tick == Quiet /\ now < MaxNow /\ Pass(now + 1) /\ UNCHANGED <<obj, pend, there>> /\ due' = (st = "run") /\ ev' = [op |-> "tick", us |-> 10]
Next == \/ \E f \in {"start", "join", "del"} : Ask(1, f, 0)
        \/ \E t \in 1..N : Ask(t, "stop", 0)
        \/ \E t \in 1..N, k \in 1..3 : Ask(t, "queue", k)
        \/ \E t \in 1..B : Lin(t) \/ Drop(t) \/ Back(t)
        \/ Body
        \/ Tick
MInit == Init(N) /\ ev = [op |-> "init"] /\ due = FALSE /\ there = TRUE
Spec == MInit /\ [][Next]_vars
View == <<pend, now, rs, ex, q, cur, st, due, there, must>>
\* An object that does not accept operations ends; one that has ended has none left
Sound == (Out => q = <<>> /\ cur = 0) /\ (Quiet /\ rs = "run" /\ ~ex => st = "run")
PrintEdge == PrintT(ToJson([E |-> [s |-> View, e |-> ev', t |-> View']]))
=============================================================================

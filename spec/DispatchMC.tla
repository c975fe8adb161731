----------------------------- MODULE DispatchMC -----------------------------
(* All histories of a dispatch thread. Thread 1 owns it, thread 2 may stop it.  *)
(* Operation k: 1 plain, 2 takes one unit of time, 3 stops the thread, 4 adds.  *)
EXTENDS Dispatch, Json
CONSTANTS Per, MaxOps, MaxNow
VARIABLES ev, slow, there, waits
vars == <<pend, now, rs, ex, ops, pos, lim, st, first, per, due, ev, slow, there, waits>>
Quiet == Resting /\ (rs = "run" /\ pos = 0 => waits) /\ (st = "run" => slow)
Ask(t, f, k) ==
  /\ Quiet /\ pend[t] = NoCall /\ there
  /\ f \in {"start", "add"} => Out
  /\ f = "add" => Len(ops) < MaxOps
  /\ there' = (f # "del") /\ (f = "del" => \A i \in Threads : pend[i] = NoCall)
  /\ Call(t, f, k) /\ UNCHANGED <<obj, now, slow, waits>> /\ ev' = [op |-> "do", th |-> t, f |-> f, k |-> k]
Lin(t) == Effect(t) /\ UNCHANGED <<slow, there, waits>> /\ ev' = [op |-> "lin"]
Back(t) == pend[t].ph = "done" /\ Ret(t, pend[t].res) /\ UNCHANGED <<obj, now, slow, there, waits>> /\ ev' = [op |-> "ret"]
Work == \/ pos > 0 /\ Exec(ops[pos]) /\ slow' = (ops[pos] = 2)
        \/ pos > 0 /\ ~slow /\ ops[pos] \in {1, 2} /\ Finish(ops[pos]) /\ UNCHANGED slow
        \/ pos > 0 /\ st = "run" /\ ops[pos] = 3 /\ ex /\ StopSelf /\ UNCHANGED slow
        \/ pos > 0 /\ st = "run" /\ ops[pos] = 3 /\ ~ex /\ Finish(3) /\ UNCHANGED slow
        \/ pos > 0 /\ ops[pos] = 4 /\ Len(ops) < MaxOps + 1 /\ Add(1) /\ UNCHANGED slow
        \/ pos > 0 /\ ops[pos] = 4 /\ Len(ops) = MaxOps + 1 /\ Finish(4) /\ UNCHANGED slow
Body == /\ UNCHANGED <<there, now, pend>> /\ ev' = [op |-> "lin"]
        /\ \/ (Start \/ (Pass1 /\ (first \/ waits))) /\ waits' = FALSE /\ UNCHANGED slow
           \/ rs = "run" /\ pos = 0 /\ ex /\ (~first \/ ops = <<>>) /\ ~waits /\ waits' = TRUE /\ UNCHANGED <<obj, slow>>
           \/ End /\ (~waits \/ now % per = 0) /\ waits' = FALSE /\ UNCHANGED slow
           \/ UNCHANGED waits /\ Work
Tick == Quiet /\ now < MaxNow /\ Pass(now + 1) /\ UNCHANGED <<obj, pend, there, waits>> /\ slow' = FALSE /\ ev' = [op |-> "tick", us |-> 100]
Next == \/ \E f \in {"start", "join", "del"} : Ask(1, f, 0)
        \/ \E t \in 1..2 : Ask(t, "stop", 0)
        \/ \E k \in 1..4 : Ask(1, "add", k)
        \/ \E t \in 1..2 : Lin(t) \/ Back(t)
        \/ Body \/ Tick
MInit == Init(2, Per) /\ ev = [op |-> "init"] /\ slow = FALSE /\ there = TRUE /\ waits = FALSE
Spec == MInit /\ [][Next]_vars
View == <<pend, now, rs, ex, ops, pos, lim, st, first, per, due, slow, there, waits>>
\* A thread at rest that was not stopped begins its next pass within a period; one that has ended is not in the middle of one
Sound == /\ Out => pos = 0 /\ st = ""
         /\ (Quiet /\ rs = "run" /\ pos = 0 /\ ops # <<>> /\ ex) => due > now /\ due - now <= per
         /\ pos <= lim /\ lim <= Len(ops)
PrintEdge == PrintT(ToJson([E |-> [s |-> View, e |-> ev', t |-> View']]))
=============================================================================

---------------------------- MODULE LifecycleMC ----------------------------
(* All histories of a thread object and its body, which looks once per unit of  *)
(* time whether it is to go on (Loop) or ends by itself at once; for replay.    *)
EXTENDS Lifecycle, Json
CONSTANTS N, Loop, MaxNow, Dls
VARIABLES ev, due, there
vars == <<pend, now, rs, fin, ex, ev, due, there>>
Quiet == Resting /\ ~due
Ask(t, f, us) ==
  /\ Quiet /\ pend[t] = NoCall /\ there
  /\ there' = (f # "del") /\ (f = "del" => \A k \in Threads : pend[k] = NoCall)
  /\ CallL(t, f, CASE f = "abs" -> us [] f = "rel" -> now + us [] f = "start" -> us [] OTHER -> Never)
  /\ UNCHANGED <<obj, now, due>> /\ ev' = [op |-> "do", th |-> t, f |-> f, us |-> (IF f = "start" THEN us ELSE 10 * us)]
Lin(t) == Effect(t) /\ UNCHANGED <<due, there>> /\ ev' = [op |-> "lin"]
Body == /\ UNCHANGED there
        /\ \/ Over /\ UNCHANGED due /\ ev' = [op |-> "lin"]
           \/ Begin /\ due' = ~Loop /\ UNCHANGED <<pend, now>> /\ ev' = [op |-> "lin"]
           \/ due /\ End /\ due' = FALSE /\ UNCHANGED <<pend, now>> /\ ev' = [op |-> "lin"]
Back(t) == pend[t].ph = "done" /\ Ret(t, pend[t].res) /\ UNCHANGED <<obj, now, due, there>> /\ ev' = [op |-> "ret"]
Tick == Quiet /\ now < MaxNow /\ Pass(now + 1) /\ UNCHANGED <<obj, pend, there>> /\ due' = (rs = "body" /\ ~ex) /\ ev' = [op |-> "tick", us |-> 10]
Next == \/ \E f \in {"wait", "join", "running", "stop", "cancel", "self", "del"} : Ask(1, f, 0)
        \/ \E k \in {0, 1} : Ask(1, "start", k)
        \/ \E f \in {"abs", "rel"}, us \in Dls : Ask(1, f, us)
        \/ \E t \in 2..N, f \in {"running", "stop", "self"} : Ask(t, f, 0)
        \/ \E t \in 1..N : Lin(t) \/ Back(t)
        \/ Body
        \/ Tick
MInit == Init(N) /\ ev = [op |-> "init"] /\ due = FALSE /\ there = TRUE
Spec == MInit /\ [][Next]_vars
View == <<pend, now, rs, fin, ex, due, there>>
\* Nobody is told that the thread has ended before its body has; unless it is cancelled a body means running
Sound == /\ \A t \in Threads : (pend[t].f \in {"wait", "join"} /\ pend[t].ph = "done") => fin /\ (Out \/ rs = "failing")
         /\ (rs \in {"idle", "over"} => fin)
PrintEdge == PrintT(ToJson([E |-> [s |-> View, e |-> ev', t |-> View']]))
=============================================================================

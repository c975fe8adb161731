---------------------------- MODULE SingletonMC ----------------------------
(* All histories of N threads; a constructor may take a unit of time, or fail.  *)
EXTENDS Singleton, Json
CONSTANTS N, MaxNow, MaxNo, Static
VARIABLES ev, no, slow, boom
vars == <<pend, now, static, dead, obj, made, mk, st, got, ev, no, slow, boom>>
Quiet == Resting /\ (mk = 0 \/ slow)
Ask(t, f, sl, bo) ==
  /\ Quiet /\ pend[t] = NoCall /\ mk = 0 /\ no < MaxNo
  /\ f = "destroy" => obj # 0 /\ \A u \in Threads : pend[u] = NoCall
  /\ (sl \/ bo) => obj = 0 /\ made = 0
  /\ Call(t, f, 0) /\ slow' = sl /\ boom' = bo
  /\ UNCHANGED <<obs, now, no>> /\ ev' = [op |-> "do", th |-> t, f |-> f, slow |-> IF sl THEN 1 ELSE 0, boom |-> IF bo THEN 1 ELSE 0]
\* while another thread constructs
Join(t) ==
  /\ Quiet /\ pend[t] = NoCall /\ mk # 0 /\ Call(t, "get", 0)
  /\ UNCHANGED <<obs, now, no, slow, boom>> /\ ev' = [op |-> "do", th |-> t, f |-> "get", slow |-> 0, boom |-> 0]
Lin == /\ ev' = [op |-> "lin"] /\ UNCHANGED <<now, slow>>
       /\ \/ \E t \in 1..N : (Effect(t) \/ Destroy(t) \/ Revive(t) \/ Begin(t) \/ Schedule(t)) /\ UNCHANGED <<no, boom>>
          \/ ~slow /\ boom /\ (\E t \in 1..N : Throw(t, FALSE)) /\ boom' = FALSE /\ UNCHANGED no
          \/ ~slow /\ ~boom /\ (\E t \in 1..N : Complete(t, no + 1)) /\ no' = no + 1 /\ UNCHANGED boom
Back(t) == pend[t].ph = "done" /\ Ret(t, TRUE) /\ UNCHANGED <<obs, now, no, slow, boom>> /\ ev' = [op |-> "ret"]
Tick == Quiet /\ now < MaxNow /\ Pass(now + 1) /\ slow' = FALSE /\ UNCHANGED <<obs, pend, no, boom>> /\ ev' = [op |-> "tick", us |-> 10]
Next == \/ \E t \in 1..N, sl, bo \in BOOLEAN : Ask(t, "get", sl, bo)
        \/ Ask(1, "destroy", FALSE, FALSE)
        \/ \E t \in 1..N : Join(t) \/ Back(t)
        \/ Lin \/ Tick
MInit == /\ now = 0 /\ pend = [t \in 0..N |-> NoCall] /\ got = [t \in 0..N |-> 0]
         /\ static = Static /\ dead = FALSE /\ obj = 0 /\ made = 0 /\ mk = 0 /\ st = ""
         /\ ev = [op |-> "init"] /\ no = 0 /\ slow = FALSE /\ boom = FALSE
Spec == MInit /\ [][Next]_vars
View == <<pend, now, static, dead, obj, made, mk, st, got, no, slow, boom>>
\* Whatever a call got is complete: it is the one instance there is, or it was destroyed since
OneInstance == /\ obj # 0 => obj <= no
               /\ (st = "make") => obj = 0
               /\ \A t \in Threads : (pend[t].ph = "done" /\ pend[t].f = "get" /\ got[t] > 0) => got[t] = obj
               /\ static => no <= 1
PrintEdge == PrintT(ToJson([E |-> [s |-> View, e |-> ev', t |-> View']]))
=============================================================================

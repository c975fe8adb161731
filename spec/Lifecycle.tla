----------------------------- MODULE Lifecycle -----------------------------
(* A thread object: one owner starts, waits, joins and cancels; anybody may     *)
(* stop it and ask whether it is running. The body's own steps are visible.     *)
EXTENDS Conc
VARIABLES rs,     \* idle, failing, starting, up (start has succeeded), body, gone (the body has ended), over
          fin,    \* no longer running
          ex      \* the body is to go on
obj == <<rs, fin, ex>>
Waits == {"wait", "join", "abs", "rel"}
Out == rs \in {"idle", "over"}
Settled == rs \notin {"starting", "failing"}
Mid(t, p) == pend' = [pend EXCEPT ![t].ph = p]
CallL(t, f, dl) == pend[t] = NoCall /\ pend' = [pend EXCEPT ![t] = [f |-> f, dl |-> dl, ph |-> "wait", res |-> ~fin]]
StartEffect(t) ==
  \/ ~fin /\ Settled /\ Done(t, TRUE) /\ UNCHANGED obj
  \/ fin /\ pend[t].res /\ Done(t, FALSE) /\ UNCHANGED obj
  \/ /\ fin /\ Out /\ fin' = FALSE /\ ex' = ex
     /\ rs' = (IF pend[t].dl = 1 THEN "failing" ELSE "starting")
     /\ Mid(t, "mid")
Effect(t) ==
  LET f == pend[t].f IN
  /\ UNCHANGED now
  /\ \/ /\ Waiting(t)
        /\ CASE f = "start" -> StartEffect(t)
             [] f \in {"wait", "join"} -> fin /\ Out /\ Done(t, TRUE) /\ UNCHANGED obj
             [] f \in {"abs", "rel"} -> (IF fin THEN Out /\ Done(t, TRUE) ELSE Expired(t) /\ Done(t, FALSE)) /\ UNCHANGED obj
             [] f = "running" -> Done(t, ~fin) /\ UNCHANGED obj
             [] f = "self" -> Done(t, FALSE) /\ UNCHANGED obj
             [] f = "stop" -> Settled /\ ex' = FALSE /\ UNCHANGED <<rs, fin>> /\ Done(t, TRUE)
             [] f = "cancel" -> Settled /\ IF fin THEN Done(t, TRUE) /\ UNCHANGED obj ELSE ex' = FALSE /\ UNCHANGED <<rs, fin>> /\ Mid(t, "mid")
             [] OTHER -> ex' = FALSE /\ UNCHANGED <<rs, fin>> /\ Mid(t, "mid")
     \/ /\ pend[t].ph = "mid"
        /\ CASE f = "start" -> /\ \/ rs = "failing" /\ rs' = "idle" /\ fin' = TRUE /\ ex' = ex /\ Done(t, FALSE)
                                  \/ rs = "starting" /\ rs' = "up" /\ fin' = fin /\ ex' = TRUE /\ Done(t, TRUE)
             [] f = "cancel" -> fin' = TRUE /\ UNCHANGED <<rs, ex>> /\ Done(t, TRUE)
             [] OTHER -> Out /\ UNCHANGED obj /\ Done(t, TRUE)
\* The thread object notices that its body has ended
Over == rs = "gone" /\ rs' = "over" /\ fin' = TRUE /\ ex' = FALSE /\ UNCHANGED <<pend, now>>
Begin == rs = "up" /\ rs' = "body" /\ UNCHANGED <<fin, ex>>
End == rs = "body" /\ rs' = "gone" /\ UNCHANGED <<fin, ex>>
Held(t) ==
  LET f == pend[t].f IN
  \/ Waiting(t) /\ \/ f \in Waits /\ ~(fin /\ Out) /\ ~(f \in {"abs", "rel"} /\ ~fin /\ Expired(t))
                   \/ f = "start" /\ fin /\ ~Out
  \/ pend[t].ph = "mid" /\ f = "del" /\ ~Out
Resting == (\A t \in Threads : pend[t] = NoCall \/ Held(t)) /\ rs \notin {"failing", "starting", "up", "gone"}
Init(n) == rs = "idle" /\ fin = TRUE /\ ex = FALSE /\ now = 0 /\ pend = [t \in 0..n |-> NoCall]
=============================================================================

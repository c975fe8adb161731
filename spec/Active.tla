------------------------------- MODULE Active -------------------------------
(* An active object: its thread executes the operations that were queued while  *)
(* it was active, one by one and in order; what was queued at other times, or   *)
(* is still queued when it ends, is deleted without being executed. An object   *)
(* that is stopped in the middle of an operation executes what is queued; one   *)
(* that is idle executes all of it or, from some operation on, none.            *)
EXTENDS Conc
VARIABLES rs,     \* off, up (started), run (between the two hooks), over
          ex,     \* accepts operations
          q,      \* operations to be executed
          cur,    \* the one being executed
          st,     \* "", run, done, drain (what is left is being deleted)
          must    \* was stopped in the middle of an operation: what is queued is executed
obj == <<rs, ex, q, cur, st, must>>
Halt == ex' = FALSE /\ must' = (must \/ (ex /\ st \in {"run", "done"}))
Out == rs \in {"off", "over"}
Mid(t) == pend' = [pend EXCEPT ![t].ph = "mid"]
Effect(t) ==
  LET f == pend[t].f IN
  /\ UNCHANGED now
  /\ \/ /\ Waiting(t)
        /\ CASE f = "queue" -> IF ex THEN q' = Append(q, pend[t].dl) /\ UNCHANGED <<rs, ex, cur, st, must>> /\ Done(t, TRUE)
                               ELSE UNCHANGED obj /\ Mid(t)
             [] f = "start" -> Out /\ q = <<>> /\ rs' = "up" /\ ex' = TRUE /\ must' = FALSE /\ UNCHANGED <<q, cur, st>> /\ Done(t, TRUE)
             [] f = "stop" -> Halt /\ UNCHANGED <<rs, q, cur, st>> /\ Done(t, TRUE)
             [] f = "join" -> Out /\ UNCHANGED obj /\ Done(t, TRUE)
             [] OTHER -> Halt /\ UNCHANGED <<rs, q, cur, st>> /\ Mid(t)
     \* while it is being destroyed the hooks of a derived class are not called any more
     \/ /\ pend[t].ph = "mid" /\ pend[t].f = "del" /\ (Out \/ (rs = "run" /\ q = <<>> /\ st \in {"", "drain"}))
        /\ rs' = "over" /\ st' = "" /\ UNCHANGED <<ex, q, cur, must>> /\ Done(t, TRUE)
\* What the thread of the object does
Start == rs = "up" /\ rs' = "run" /\ UNCHANGED <<ex, q, cur, st, must>>
Exec(id) == rs = "run" /\ st = "" /\ q # <<>> /\ Head(q) = id /\ cur' = id /\ st' = "run" /\ q' = Tail(q) /\ UNCHANGED <<rs, ex, must>>
Finish(id) == st = "run" /\ cur = id /\ st' = "done" /\ UNCHANGED <<rs, ex, q, cur, must>>
Del(id) == st = "done" /\ cur = id /\ st' = "" /\ cur' = 0 /\ UNCHANGED <<rs, ex, q, must>>
Drain(id) == rs = "run" /\ ~ex /\ ~must /\ st \in {"", "drain"} /\ q # <<>> /\ Head(q) = id /\ q' = Tail(q) /\ st' = "drain" /\ UNCHANGED <<rs, ex, cur, must>>
Stop == rs = "run" /\ ~ex /\ q = <<>> /\ st \in {"", "drain"} /\ rs' = "over" /\ st' = "" /\ UNCHANGED <<ex, q, cur, must>>
\* An operation that was not accepted is deleted by the call
Refuse(t, id) == pend[t].ph = "mid" /\ pend[t].f = "queue" /\ pend[t].dl = id /\ Done(t, FALSE)
Held(t) == \/ Waiting(t) /\ pend[t].f = "join" /\ ~Out
           \/ pend[t].ph = "mid" /\ pend[t].f = "del" /\ st \in {"run", "done"}
Resting == (\A t \in Threads : pend[t] = NoCall \/ Held(t)) /\ rs # "up" /\ (rs = "run" => st = "run" \/ (ex /\ q = <<>> /\ st = ""))
\* The threads 1..n and the thread of the object
Init(n) == rs = "off" /\ ex = FALSE /\ q = <<>> /\ cur = 0 /\ st = "" /\ must = FALSE /\ now = 0 /\ pend = [t \in 0..(n + 1) |-> NoCall]
=============================================================================

------------------------------ MODULE Dispatch ------------------------------
(* A dispatch thread: once per period it executes all operations it was given,  *)
(* one by one and in order, as long as it is not stopped; a pass it has begun   *)
(* is completed.                                                                *)
EXTENDS Conc
VARIABLES rs,        \* off, up (started), run, over
          ex,        \* not stopped
          ops,       \* what it was given
          pos, lim,  \* in a pass: the next operation, and the last one of this pass; 0 between two passes
          st,        \* "", run
          first,     \* the first pass has not begun
          per, due   \* end of the period to be waited for (0 when it was stopped)
obj == <<rs, ex, ops, pos, lim, st, first, per, due>>
Out == rs \in {"off", "over"}
Effect(t) ==
  LET f == pend[t].f IN
  /\ UNCHANGED now
  /\ \/ /\ Waiting(t)
        /\ CASE f = "add" -> ops' = Append(ops, pend[t].dl) /\ UNCHANGED <<rs, ex, pos, lim, st, first, per, due>> /\ Done(t, TRUE)
             [] f = "start" -> Out /\ rs' = "up" /\ ex' = TRUE /\ UNCHANGED <<ops, pos, lim, st, first, per, due>> /\ Done(t, TRUE)
             [] f = "stop" -> ex' = FALSE /\ due' = 0 /\ UNCHANGED <<rs, ops, pos, lim, st, first, per>> /\ Done(t, TRUE)
             [] f = "join" -> Out /\ UNCHANGED obj /\ Done(t, TRUE)
             [] OTHER -> ex' = FALSE /\ due' = 0 /\ UNCHANGED <<rs, ops, pos, lim, st, first, per>> /\ pend' = [pend EXCEPT ![t].ph = "mid"]
     \/ pend[t].ph = "mid" /\ Out /\ UNCHANGED obj /\ Done(t, TRUE)
\* What the thread does
Start == rs = "up" /\ rs' = "run" /\ due' = (IF ex THEN now + per ELSE 0) /\ first' = TRUE /\ pos' = 0 /\ lim' = 0 /\ st' = "" /\ UNCHANGED <<ex, ops, per>>
Next1 == due' = due + ((now - due) \div per + 1) * per
\* (passes without operations cannot be told)
Pass1 == /\ rs = "run" /\ pos = 0 /\ ex /\ ops # <<>> /\ UNCHANGED <<rs, ex, ops, st, per>>
         /\ IF first THEN first' = FALSE /\ UNCHANGED due ELSE UNCHANGED first /\ now >= due /\ Next1
         /\ pos' = 1 /\ lim' = Len(ops)
\* Stopped between two passes: at once or with the end of the period
End == rs = "run" /\ pos = 0 /\ ~ex /\ rs' = "over" /\ first' = FALSE /\ due' = 0 /\ UNCHANGED <<ex, ops, pos, lim, st, per>>
Exec(id) == rs = "run" /\ pos > 0 /\ st = "" /\ ops[pos] = id /\ st' = "run" /\ UNCHANGED <<rs, ex, ops, pos, lim, first, per, due>>
Finish(id) == /\ st = "run" /\ ops[pos] = id /\ st' = "" /\ UNCHANGED <<rs, ex, ops, first, per, due>>
              /\ IF pos = lim THEN pos' = 0 /\ lim' = 0 ELSE pos' = pos + 1 /\ UNCHANGED lim
\* By an operation: it becomes part of this pass, or of the next one on
Add(id) == /\ st = "run" /\ ops' = Append(ops, id) /\ lim' \in (IF lim = Len(ops) THEN {lim, lim + 1} ELSE {lim})
           /\ UNCHANGED <<rs, ex, pos, st, first, per, due>>
StopSelf == st = "run" /\ ex' = FALSE /\ due' = 0 /\ UNCHANGED <<rs, ops, pos, lim, st, first, per>>
Held(t) == (Waiting(t) /\ pend[t].f = "join" /\ ~Out) \/ (pend[t].ph = "mid" /\ ~Out)
Resting == /\ \A t \in Threads : pend[t] = NoCall \/ Held(t)
           /\ rs # "up" /\ (rs = "run" => st = "run" \/ (pos = 0 /\ (ops = <<>> \/ ~ex \/ (~first /\ now < due))))
Init(n, p) == /\ rs = "off" /\ ex = FALSE /\ ops = <<>> /\ pos = 0 /\ lim = 0 /\ st = "" /\ first = FALSE /\ per = p /\ due = 0
              /\ now = 0 /\ pend = [t \in 0..n |-> NoCall]
=============================================================================

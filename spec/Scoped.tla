------------------------------- MODULE Scoped -------------------------------
(* Scoped lock objects on one mutex, one read-write lock and one spin lock, and *)
(* direct requests between them. A pending call's argument is kept in dl.       *)
EXTENDS Conc
VARIABLES mo, mc,          \* mutex: owner, how often locked
          rd, wr,          \* read-write lock: read locks of each thread, writer
          so,              \* spin lock: owner
          sc               \* each thread's open scopes: kind and whether it holds its lock
obj == <<mo, mc, rd, wr, so, sc>>
Opens == {"sm", "sr", "sw", "ss"}
Tries == {"trym", "tryr", "tryw", "tryspin"}
\* What a request asks for
Lock(f) == CASE f \in {"sm", "trym"} -> "m" [] f \in {"sr", "tryr"} -> "r" [] f \in {"sw", "tryw"} -> "w" [] OTHER -> "s"
Free(t, k) == CASE k = "m" -> mo \in {0, t}
                [] k = "r" -> wr = 0
                [] k = "w" -> wr = 0 /\ \A u \in Threads : rd[u] = 0
                [] OTHER -> so = 0
Take(t, k) == CASE k = "m" -> mo' = t /\ mc' = mc + 1 /\ UNCHANGED <<rd, wr, so>>
                [] k = "r" -> rd' = [rd EXCEPT ![t] = @ + 1] /\ UNCHANGED <<mo, mc, wr, so>>
                [] k = "w" -> wr' = t /\ UNCHANGED <<mo, mc, rd, so>>
                [] OTHER -> so' = t /\ UNCHANGED <<mo, mc, rd, wr>>
Give(t, k) == CASE k = "m" -> mo = t /\ mc' = mc - 1 /\ mo' = (IF mc = 1 THEN 0 ELSE t) /\ UNCHANGED <<rd, wr, so>>
                [] k = "r" -> rd[t] > 0 /\ rd' = [rd EXCEPT ![t] = @ - 1] /\ UNCHANGED <<mo, mc, wr, so>>
                [] k = "w" -> wr = t /\ wr' = 0 /\ UNCHANGED <<mo, mc, rd, so>>
                [] OTHER -> so = t /\ so' = 0 /\ UNCHANGED <<mo, mc, rd, wr>>
Locks == <<mo, mc, rd, wr, so>>
Open(t, k, ok) == sc' = [sc EXCEPT ![t] = Append(@, [k |-> k, ok |-> ok])]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* The writer itself cannot have the read-write lock a second time
Hopeless(t, k) == k \in {"r", "w"} /\ wr = t
Effect(t) ==
  LET f == pend[t].f k == Lock(f) i == pend[t].dl IN
  /\ Waiting(t)
  /\ UNCHANGED now
  /\ CASE f \in Opens ->
            \/ Free(t, k) /\ Take(t, k) /\ Open(t, k, TRUE) /\ Done(t, TRUE)
            \/ Hopeless(t, k) /\ UNCHANGED Locks /\ Open(t, k, FALSE) /\ Done(t, FALSE)
       [] f = "close" -> /\ IF sc[t][i].ok THEN Give(t, sc[t][i].k) ELSE UNCHANGED Locks
                         /\ sc' = [sc EXCEPT ![t] = Without(@, i)]
                         /\ Done(t, TRUE)
       [] f = "isl" -> UNCHANGED obj /\ Done(t, sc[t][i].ok)
       [] f \in Tries -> IF Free(t, k) THEN Take(t, k) /\ UNCHANGED sc /\ Done(t, TRUE) ELSE UNCHANGED obj /\ Done(t, FALSE)
       [] f = "spin" -> so = 0 /\ Take(t, "s") /\ UNCHANGED sc /\ Done(t, TRUE)
       [] f = "unm" -> Give(t, "m") /\ UNCHANGED sc /\ Done(t, TRUE)
       [] f = "unr" -> Give(t, "r") /\ UNCHANGED sc /\ Done(t, TRUE)
       [] f = "unw" -> Give(t, "w") /\ UNCHANGED sc /\ Done(t, TRUE)
       [] OTHER -> Give(t, "s") /\ UNCHANGED sc /\ Done(t, TRUE)
Held(t) == Waiting(t) /\ pend[t].f \in Opens \union {"spin"} /\ ~Free(t, Lock(pend[t].f)) /\ ~Hopeless(t, Lock(pend[t].f))
InitObj(n) == mo = 0 /\ mc = 0 /\ rd = [t \in 1..n |-> 0] /\ wr = 0 /\ so = 0 /\ sc = [t \in 1..n |-> <<>>]
Init(n) == InitObj(n) /\ now = 0 /\ pend = [t \in 1..n |-> NoCall]
=============================================================================

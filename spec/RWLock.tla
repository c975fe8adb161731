------------------------------- MODULE RWLock -------------------------------
\* A read-write lock: any number of readers or one writer; blocking, immediate and timed requests.
EXTENDS Conc
VARIABLES rd, wr                 \* how many read locks each thread holds; the writing thread (0: none)
obj == <<rd, wr>>
Others(t) == Threads \ {t}
CanRead(t) == wr = 0
CanWrite(t) == wr = 0 /\ \A u \in Threads : rd[u] = 0
Reads == {"rlock", "tryr", "rabs", "rrel"}
Timed == {"rabs", "rrel", "wabs", "wrel"}
Tries == {"tryr", "tryw"}
Can(t) == IF pend[t].f \in Reads THEN CanRead(t) ELSE CanWrite(t)
Grant(t) == /\ IF pend[t].f \in Reads THEN rd' = [rd EXCEPT ![t] = @ + 1] /\ wr' = wr
                                      ELSE wr' = t /\ rd' = rd
            /\ Done(t, TRUE)
Refuse(t) == UNCHANGED obj /\ Done(t, FALSE)
Release(t) == /\ \/ wr = t /\ wr' = 0 /\ rd' = rd
                 \/ wr # t /\ rd[t] > 0 /\ rd' = [rd EXCEPT ![t] = @ - 1] /\ wr' = wr
              /\ Done(t, TRUE)
Effect(t) ==
  /\ Waiting(t)
  /\ UNCHANGED now
  /\ CASE pend[t].f = "unlock" -> Release(t)
       [] pend[t].f \in Tries -> IF Can(t) THEN Grant(t) ELSE Refuse(t)
       [] pend[t].f \in Timed -> IF Can(t) THEN Grant(t) ELSE Expired(t) /\ Refuse(t)
       [] OTHER -> Can(t) /\ Grant(t)
Held(t) == Waiting(t) /\ pend[t].f \notin Tries \union {"unlock"} /\ ~Can(t) /\ ~(pend[t].f \in Timed /\ Expired(t))
\* The domain: what is released is held; the writer asks for nothing further except by trying; a reader becomes a writer only with a time limit
Domain(t, f) == /\ f = "unlock" => wr = t \/ rd[t] > 0
                /\ f \notin Tries \union {"unlock"} => wr # t
                /\ f = "wlock" => rd[t] = 0
Init(n) == rd = [t \in 1..n |-> 0] /\ wr = 0 /\ now = 0 /\ pend = [t \in 1..n |-> NoCall]
=============================================================================

----------------------------- MODULE LogQueueMC -----------------------------
(* All histories of messages, starts, shutdowns, attaching, detaching, format   *)
(* changes and outputs that take their time. Thread 1 owns the outputs.         *)
EXTENDS LogQueue, Json
CONSTANTS NThreads, NOut, Workers, Levels, MaxMsg, Ops
VARIABLES ev, sent
vars == <<pend, now, obj, ev, sent>>
Ask(t, f, s, o, v) ==
  /\ Resting /\ pend[t] = NoCall /\ f \in Ops
  /\ f \in {"start", "shutdown"} => t = 1
  /\ f = "log" => sent < MaxMsg
  /\ sent' = (IF f = "log" THEN sent + 1 ELSE sent)
  /\ Call(t, f, 0) /\ arg' = [arg EXCEPT ![t] = [s |-> s, o |-> o, lv |-> v, x |-> IF f = "log" THEN ToString(sent + 1) ELSE "", pred |-> IF f = "log" THEN Returned ELSE {}]]
  /\ UNCHANGED <<now, wk, lv, at, fm, rs, ex, q, cur, held, to>>
  /\ ev' = [op |-> "do", th |-> t, f |-> f, s |-> s, o |-> o, lv |-> v]
\* one message of a stream at a time
Turn(t) == (Waiting(t) /\ pend[t].f \in {"log", "attach", "detach"}) => \A u \in Threads : ~(Logging(u) /\ arg[u].s = arg[t].s)
Lin(t) == Turn(t) /\ Effect(t)
Back(t) == pend[t].ph = "done" /\ Ret(t, TRUE) /\ UNCHANGED <<obj, now>>
\* outputs in their order
Least(t, o) == \A p \in to[t] : o <= p
Hidden == \/ \E t \in Threads : Lin(t) \/ Back(t)
          \/ /\ UNCHANGED <<now, pend>>
             /\ \E o \in Outputs : \/ \E t \in Threads : Least(t, o) /\ (Put(t, o) \/ Direct(t, o))
                                   \/ (\E m \in q[o] : Take(o, m)) \/ Drained(o) \/ Hello(o) \/ Bye(o)
                                   \/ cur[o].st = "taken" /\ In(o, cur[o].by, cur[o].x)
                                   \/ ~held[o] /\ Out(o)
Next == \/ \E t \in 1..NThreads, o \in 1..NOut :
             \/ \E f \in {"start", "shutdown"} : wk[o] /\ Ask(t, f, 0, o, 0)
             \/ held[o] /\ Ask(t, "free", 0, o, 0)
             \/ t = 1 /\ ~held[o] /\ Ask(t, "hold", 0, o, 0)
             \/ o \notin at[1] /\ Ask(t, "attach", 1, o, 0)
             \/ o \in at[1] /\ Ask(t, "detach", 1, o, 0)
             \/ t = 1 /\ Ask(t, "format", 0, o, 1 - fm[o])
        \/ \E t \in 1..NThreads, v \in {2, 4} : Ask(t, "log", 1, 0, v)
        \/ Hidden /\ ev' = [op |-> "lin"] /\ UNCHANGED sent
MInit == LET b == Begin(NThreads, [o \in 1..NOut |-> o \in Workers], Levels, [s \in {1} |-> 1..NOut]) IN
         /\ now = b.now /\ pend = b.pend /\ wk = b.wk /\ lv = b.lv /\ at = b.at /\ fm = b.fm /\ rs = b.rs /\ ex = b.ex
         /\ q = b.q /\ cur = b.cur /\ held = b.held /\ arg = b.arg /\ to = b.to /\ ev = [op |-> "init"] /\ sent = 0
Spec == MInit /\ [][Next]_vars
L1 == <<2>>
L2 == <<2, 4>>
W1 == {1}
W0 == {}
OpsA == {"log", "start", "shutdown", "hold", "free"}
OpsB == {"log", "hold", "free", "attach", "detach", "format"}
OpsD == {"log", "start", "shutdown", "detach", "hold"}
OpsC == {"log", "start", "shutdown", "hold", "free", "attach", "detach", "format"}
View == <<pend, now, at, fm, rs, ex, q, cur, held, arg, to, sent>>
\* Of two messages which wait for an output at most one has to be first
Ordered == \A o \in Outputs : \A m, n \in q[o] : ~(m.x \in n.pred /\ n.x \in m.pred) /\ m.x \notin m.pred
\* Messages of one thread are written in their order
InOrder == [][\A o \in Outputs : cur'[o] # cur[o] /\ cur'[o].st = "taken" => \A m \in q[o] : m \notin q'[o] => \A n \in q'[o] : n.x \notin m.pred]_vars
\* An output that is neither kept nor stopped gets rid of everything; a shutdown leaves nothing of what was there
Emptied == Resting => \A o \in Outputs : wk[o] /\ rs[o] = "run" /\ ~Stuck(o) => q[o] = {} /\ cur[o] = Nothing
Leaves == [][\A o \in Outputs : rs[o] = "run" /\ rs'[o] = "bye" => q[o] = {}]_vars
\* Behind the end of an output's thread nothing is written before it is started again
Silent == [][\A o \in Outputs : wk[o] /\ rs[o] \in {"off", "over", "bye"} => cur'[o] = cur[o]]_vars
PrintEdge == PrintT(ToJson([E |-> [s |-> View, e |-> ev', t |-> View']]))
=============================================================================

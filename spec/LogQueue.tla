------------------------------ MODULE LogQueue ------------------------------
(* Log messages of several threads on their way to the outputs. A message goes  *)
(* to the outputs which are attached to its stream at one instant and admit its *)
(* level; an output with a thread of its own queues it. Every output writes one *)
(* message at a time, those whose call returned before another one was made     *)
(* before that one, with the format it has at that instant. Shutting an output down writes what is queued.*)
EXTENDS Conc
VARIABLES wk,    \* output -> whether it has a thread
          lv,    \* output -> level it admits
          at,    \* stream -> outputs attached to it
          fm,    \* output -> format: 0 or 1
          rs,    \* output -> its thread: off, up (started), run, bye (has written everything), over
          ex,    \* output -> not asked to end
          q,     \* output -> messages handed to it, each with those which have to be written before it
          cur,   \* output -> what it is writing
          held,  \* output -> keeps the message it is writing until it is let go
          arg,   \* thread -> arguments of its call
          to     \* thread -> outputs its message has to be handed to
obj == <<wk, lv, at, fm, rs, ex, q, cur, held, arg, to>>
Nothing == [x |-> "", by |-> 0, st |-> ""]
NoArg == [s |-> 0, o |-> 0, lv |-> 0, x |-> "", pred |-> {}]
Outputs == DOMAIN wk
Line(o, x) == IF fm[o] = 0 THEN x ELSE "[" \o x \o "]"
Alive(o) == rs[o] \in {"up", "run", "bye"}
Logging(t) == pend[t].ph = "mid" /\ pend[t].f = "log"
\* Messages which are queued and whose calls have returned
Returned == {m.x : m \in UNION {q[o] : o \in Outputs}} \ {arg[t].x : t \in {u \in Threads : Logging(u)}}
\* Still on its way from stream s to output o
Between(t, s, o) == Logging(t) /\ arg[t].s = s /\ (o \in to[t] \/ cur[o].by = t)
Effect(t) ==
  LET f == pend[t].f
      a == arg[t]
      o == a.o IN
  /\ UNCHANGED <<now, wk, lv, arg>>
  /\ \/ /\ Waiting(t)
        /\ CASE f = "log" -> /\ to' = [to EXCEPT ![t] = {p \in at[a.s] : a.lv >= lv[p]}]
                             /\ pend' = [pend EXCEPT ![t].ph = "mid"] /\ UNCHANGED <<at, fm, rs, ex, q, cur, held>>
             [] f = "attach" -> at' = [at EXCEPT ![a.s] = @ \union {o}] /\ Done(t, TRUE) /\ UNCHANGED <<fm, rs, ex, q, cur, held, to>>
             \* behind its return nothing of this stream arrives any more
             [] f = "detach" -> /\ \A u \in Threads : ~Between(u, a.s, o)
                                /\ at' = [at EXCEPT ![a.s] = @ \ {o}] /\ Done(t, TRUE) /\ UNCHANGED <<fm, rs, ex, q, cur, held, to>>
             [] f = "format" -> fm' = [fm EXCEPT ![o] = a.lv] /\ Done(t, TRUE) /\ UNCHANGED <<at, rs, ex, q, cur, held, to>>
             [] f = "start" -> /\ IF wk[o] /\ ~Alive(o) THEN rs' = [rs EXCEPT ![o] = "up"] /\ ex' = [ex EXCEPT ![o] = TRUE]
                                                        ELSE UNCHANGED <<rs, ex>>
                               /\ Done(t, TRUE) /\ UNCHANGED <<at, fm, q, cur, held, to>>
             [] f = "shutdown" -> /\ IF wk[o] /\ Alive(o) THEN ex' = [ex EXCEPT ![o] = FALSE] /\ pend' = [pend EXCEPT ![t].ph = "mid"]
                                                          ELSE UNCHANGED ex /\ Done(t, TRUE)
                                  /\ UNCHANGED <<at, fm, rs, q, cur, held, to>>
             [] OTHER -> held' = [held EXCEPT ![o] = f = "hold"] /\ Done(t, TRUE) /\ UNCHANGED <<at, fm, rs, ex, q, cur, to>>
     \/ /\ pend[t].ph = "mid" /\ Done(t, TRUE) /\ UNCHANGED <<at, fm, rs, ex, q, cur, held, to>>
        /\ IF f = "log" THEN to[t] = {} /\ \A p \in Outputs : cur[p].by # t ELSE ~Alive(o)
\* The message of t is handed to output o
Put(t, o) == /\ Logging(t) /\ o \in to[t] /\ wk[o]
             /\ q' = [q EXCEPT ![o] = @ \union {[x |-> arg[t].x, pred |-> arg[t].pred]}] /\ to' = [to EXCEPT ![t] = @ \ {o}]
             /\ UNCHANGED <<wk, lv, at, fm, rs, ex, cur, held, arg>>
\* The next one to be written, by its thread or by the one which logs
Take(o, m) == /\ wk[o] /\ rs[o] = "run" /\ cur[o] = Nothing /\ \A n \in q[o] : n.x \notin m.pred
              /\ q' = [q EXCEPT ![o] = @ \ {m}] /\ cur' = [cur EXCEPT ![o] = [x |-> Line(o, m.x), by |-> 0, st |-> "taken"]]
              /\ UNCHANGED <<wk, lv, at, fm, rs, ex, held, arg, to>>
Direct(t, o) == Logging(t) /\ o \in to[t] /\ ~wk[o] /\ cur[o] = Nothing
                /\ to' = [to EXCEPT ![t] = @ \ {o}] /\ cur' = [cur EXCEPT ![o] = [x |-> Line(o, arg[t].x), by |-> t, st |-> "taken"]]
                /\ UNCHANGED <<wk, lv, at, fm, rs, ex, q, held, arg>>
\* What an output sees
Hello(o) == rs[o] = "up" /\ rs' = [rs EXCEPT ![o] = "run"] /\ UNCHANGED <<wk, lv, at, fm, ex, q, cur, held, arg, to>>
In(o, by, x) == /\ cur[o] = [x |-> x, by |-> by, st |-> "taken"] /\ cur' = [cur EXCEPT ![o].st = "in"]
                /\ UNCHANGED <<wk, lv, at, fm, rs, ex, q, held, arg, to>>
Out(o) == cur[o].st = "in" /\ cur' = [cur EXCEPT ![o] = Nothing] /\ UNCHANGED <<wk, lv, at, fm, rs, ex, q, held, arg, to>>
Drained(o) == /\ rs[o] = "run" /\ ~ex[o] /\ q[o] = {} /\ cur[o] = Nothing /\ rs' = [rs EXCEPT ![o] = "bye"]
              /\ UNCHANGED <<wk, lv, at, fm, ex, q, cur, held, arg, to>>
Bye(o) == rs[o] = "bye" /\ rs' = [rs EXCEPT ![o] = "over"] /\ UNCHANGED <<wk, lv, at, fm, ex, q, cur, held, arg, to>>
\* Calls that may have to wait: behind an output that keeps its message
Stuck(o) == cur[o].st = "in" /\ held[o]
Streams == DOMAIN at
Behind(s) == \E u \in Threads : Logging(u) /\ arg[u].s = s /\ \E p \in Outputs : ~wk[p] /\ Stuck(p) /\ (cur[p].by = u \/ p \in to[u])
\* a message to several outputs may be waiting for another one of them
Waits(t) ==
  LET f == pend[t].f
      a == arg[t] IN
  CASE f = "log" -> \E p \in Outputs : ~wk[p] /\ Stuck(p) /\ (Waiting(t) => p \in at[a.s] \/ Behind(a.s)) /\ (Logging(t) => cur[p].by = t \/ p \in to[t] \/ Behind(a.s))
    [] f \in {"attach", "detach"} -> Waiting(t) /\ Behind(a.s)
    [] f = "shutdown" -> pend[t].ph = "mid" /\ Alive(a.o) /\ Stuck(a.o)
    [] OTHER -> FALSE
\* Nothing goes on: every message has been written, unless it is behind one that is kept
Resting == /\ \A t \in Threads : pend[t] = NoCall \/ Waits(t)
           /\ \A o \in Outputs : wk[o] => /\ rs[o] \in {"off", "over", "run"}
                                          /\ rs[o] = "run" => Stuck(o) \/ (cur[o] = Nothing /\ q[o] = {} /\ ex[o])
           /\ \A o \in Outputs : cur[o] # Nothing => Stuck(o)
Begin(n, w, l, s) ==
  [now |-> 0, pend |-> [t \in 0..n |-> NoCall], wk |-> w, lv |-> l, at |-> s, fm |-> [o \in DOMAIN w |-> 0], rs |-> [o \in DOMAIN w |-> "off"],
   ex |-> [o \in DOMAIN w |-> FALSE], q |-> [o \in DOMAIN w |-> {}], cur |-> [o \in DOMAIN w |-> Nothing], held |-> [o \in DOMAIN w |-> FALSE],
   arg |-> [t \in 0..n |-> NoArg], to |-> [t \in 0..n |-> {}]]
=============================================================================

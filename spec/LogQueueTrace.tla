---------------------------- MODULE LogQueueTrace ----------------------------
EXTENDS LogQueue, ConcTraceBase
vars == <<pend, now, obj, l>>
Set(s) == {s[i] : i \in 1..Len(s)}
Become(b) == /\ now' = b.now /\ pend' = b.pend /\ wk' = b.wk /\ lv' = b.lv /\ at' = b.at /\ fm' = b.fm /\ rs' = b.rs /\ ex' = b.ex
             /\ q' = b.q /\ cur' = b.cur /\ held' = b.held /\ arg' = b.arg /\ to' = b.to
New == Become(Begin(e.th, e.wk, e.lv, [s \in 1..Len(e.at) |-> Set(e.at[s])]))
Ask == /\ Call(e.th, e.f, 0) /\ arg' = [arg EXCEPT ![e.th] = [s |-> e.s, o |-> e.o, lv |-> e.lv, x |-> e.x, pred |-> Returned]]
       /\ UNCHANGED <<now, wk, lv, at, fm, rs, ex, q, cur, held, to>>
OneLine == CASE e.op = "new" -> New
             [] e.op = "call" -> Ask
             [] e.op = "ret" -> Ret(e.th, TRUE) /\ UNCHANGED <<obj, now>>
             [] e.op = "hello" -> e.th = 0 /\ wk[e.o] /\ Hello(e.o) /\ UNCHANGED <<now, pend>>
             [] e.op = "in" -> In(e.o, e.th, e.x) /\ UNCHANGED <<now, pend>>
             [] e.op = "out" -> Out(e.o) /\ UNCHANGED <<now, pend>>
             [] e.op = "bye" -> e.th = 0 /\ Bye(e.o) /\ UNCHANGED <<now, pend>>
             [] e.op = "tick" -> Pass(e.now) /\ UNCHANGED <<obj, pend>>
             [] e.op = "quiet" -> Resting /\ UNCHANGED <<obj, pend, now>>
             [] e.op = "end" -> NonePending /\ Resting /\ UNCHANGED <<obj, pend, now>>
             [] OTHER -> FALSE
TInit == LET b == Begin(0, <<>>, <<>>, <<>>) IN
         /\ now = b.now /\ pend = b.pend /\ wk = b.wk /\ lv = b.lv /\ at = b.at /\ fm = b.fm /\ rs = b.rs /\ ex = b.ex
         /\ q = b.q /\ cur = b.cur /\ held = b.held /\ arg = b.arg /\ to = b.to /\ l = 0
\* Steps that cannot be seen are chosen only in front of lines they matter to
Own(t) == e.op = "ret" /\ e.th = t
Ends(f) == e.op = "ret" /\ e.f \in f
Writes(o) == e.op = "in" /\ e.o = o
Shows(x) == e.op = "in" /\ (e.x = x \/ e.x = "[" \o x \o "]")
When(t) == LET f == pend[t].f IN
           \/ Own(t)
           \/ f = "log" /\ (Shows(arg[t].x) \/ Ends({"attach", "detach", "format"}))
           \/ f \in {"attach", "detach"} /\ (e.op = "in" \/ Ends({"log", "format", "attach", "detach"}))
           \/ f = "format" /\ Writes(arg[t].o)
           \/ f = "start" /\ e.op = "hello" /\ e.o = arg[t].o
           \/ f = "shutdown" /\ (e.op = "quiet" \/ (e.op = "bye" /\ e.o = arg[t].o) \/ Ends({"log"}))
TNext == \/ Step /\ OneLine
         \/ More /\ UNCHANGED l /\ \E t \in Threads : pend[t] # NoCall /\ When(t) /\ Effect(t)
         \/ More /\ UNCHANGED <<l, now, pend>> /\ \E o \in Outputs :
              \/ \E t \in Threads : (Own(t) \/ (Writes(o) /\ Shows(arg[t].x)) \/ Ends({"detach", "format"})) /\ Put(t, o)
              \/ \E t \in Threads : ((Writes(o) /\ e.th = t) \/ (Ends({"format"}) /\ arg[e.th].o = o)) /\ Direct(t, o)
              \/ \E m \in q[o] : ((Writes(o) /\ Shows(m.x)) \/ (Ends({"format"}) /\ arg[e.th].o = o)) /\ Take(o, m)
              \/ ((e.op = "bye" /\ e.o = o) \/ Ends({"log"})) /\ Drained(o)
TSpec == TInit /\ [][TNext]_vars
=============================================================================

---------------------------- MODULE LoggingTrace ----------------------------
(* What was recorded from the real logging framework. Every event carries    *)
(* in "got" everything which reached an output since the event before.       *)
EXTENDS Logging, TraceBase
e == Ln
Names == <<"Trace", "Debug", "Info", "Warning", "Error", "Mute">>
LevelOf(v) == IF \E i \in 1..6 : Names[i] = v THEN (CHOOSE i \in 1..6 : Names[i] = v) - 1 ELSE -1
Or0(x) == IF x = -1 THEN 0 ELSE x
ToSet(q) == {q[i] : i \in DOMAIN q}

(* Exactly the outputs O got the message of the event, once each and with all that belongs to it. *)
Got(O) == /\ Len(e.got) = Cardinality(O)
          /\ {e.got[i].o : i \in DOMAIN e.got} = O
          /\ \A i \in DOMAIN e.got :
               LET g == e.got[i] IN
               /\ g.s = e.s /\ g.l = Names[e.l + 1] /\ g.t = e.t
               /\ g.c = (IF e.w = "" THEN "" ELSE "K") /\ g.b = (IF e.w = "CO" THEN "obj" ELSE "")
               /\ g.f = e.fn /\ g.file = e.file /\ g.line = e.line
Quiet == e.got = <<>>

(* The text of the argument is only worked out when the stream lets it pass. *)
Logged(passes, O) == /\ e.ev = (IF passes THEN 1 ELSE 0) /\ Got(O)

NewConf(c, en, it, v) ==
  LET x == IF en \in DOMAIN c THEN c[en] ELSE NoConf IN
  Put(c, en, CASE it = "type" -> [x EXCEPT !.ty = v]
               [] it = "name" -> [x EXCEPT !.name = v]
               [] it = "level" -> [x EXCEPT !.lev = Or0(LevelOf(v))]
               [] it = "stream" -> [x EXCEPT !.ls = @ \cup {v}])
NewSConf(c, en, it, v) ==
  LET x == IF en \in DOMAIN c THEN c[en] ELSE NoSConf IN
  Put(c, en, IF it = "name" THEN [x EXCEPT !.name = v] ELSE [x EXCEPT !.lev = Or0(LevelOf(v))])

(* Families of macros: S - on a stream object, L - by the name of a stream,   *)
(* M - in a class (q: switched off), K - for local use (k: switched off),     *)
(* D - in a release build.                                                    *)
Dead(f, lev) == f \in {"q", "k"} \/ (f = "D" /\ lev < Info)
Log == IF Dead(e.f, e.l) THEN UNCHANGED vars /\ ~e.warn /\ Logged(FALSE, {})
       ELSE IF e.s \in DOMAIN strs THEN UNCHANGED vars /\ ~e.warn /\ Logged(Passes(e.s, e.l), Gets(e.s, e.l))
       ELSE e.f # "S" /\ Initialize /\ e.warn /\ Logged(PassesIn(strs', e.s, e.l), GetsIn(strs', outs', def', e.s, e.l))

Printed == /\ {[n |-> e.outs[i].n, l |-> LevelOf(e.outs[i].l)] : i \in DOMAIN e.outs}
                = {[n |-> o, l |-> outs[o].lev] : o \in DOMAIN outs} \cup (IF def = -1 THEN {} ELSE {[n |-> "Default", l |-> def]})
           /\ Len(e.outs) = Cardinality(DOMAIN outs) + (IF def = -1 THEN 0 ELSE 1)
           /\ Len(e.strs) = Cardinality(DOMAIN strs)
           /\ {[n |-> e.strs[i].n, o |-> ToSet(e.strs[i].o)] : i \in DOMAIN e.strs}
                = {[n |-> s, o |-> {IF o = "*" THEN "Default" ELSE o : o \in strs[s].outs}] : s \in DOMAIN strs}

Fresh == /\ init' = FALSE /\ conf' = Empty /\ sconf' = Empty /\ oc' = Empty /\ sc' = Empty /\ arg' = -1
         /\ facs' = {"Default", "Nirwana", "QuickDebug", "IclCoreThread", "A", "B"} /\ strs' = Empty /\ outs' = Empty /\ def' = -1 /\ mine' = Empty

TNext ==
  /\ Step
  /\ CASE e.op = "new" -> Fresh
       [] e.op = "log" -> Log
       [] e.op \in {"crash", "hang"} -> FALSE
       [] OTHER ->
          /\ Quiet
          /\ CASE e.op = "conf" -> conf' = NewConf(conf, e.e, e.i, e.v) /\ UNCHANGED <<init, sconf, oc, sc, arg, facs, strs, outs, def, mine>>
               [] e.op = "sconf" -> sconf' = NewSConf(sconf, e.e, e.i, e.v) /\ UNCHANGED <<init, conf, oc, sc, arg, facs, strs, outs, def, mine>>
               [] e.op = "init" -> InitializeWith(IF e.arg = "-" \/ LevelOf(e.arg) = -1 THEN arg ELSE LevelOf(e.arg)) /\ e.ok
               [] e.op = "configure" -> Reconfigure
               [] e.op = "shutdown" -> Shutdown
               [] e.op = "active" -> e.s \in DOMAIN strs /\ SetActive(e.s, e.b)
               [] e.op = "setall" -> SetAll(e.l)
               [] e.op = "setout" -> SetOut(e.o, e.l)
               [] e.op = "link" -> Link(e.s, e.o)
               [] e.op = "unlink" -> Unlink(e.s, e.o)
               [] e.op = "drop" -> e.found = (e.o \in DOMAIN outs) /\ (IF e.found THEN Drop(e.o) ELSE UNCHANGED vars)
               [] e.op = "mine" -> Mine(e.o, e.l)
               [] e.op = "own" -> Own(e.s, e.l)
               [] e.op = "declare" -> Declare(e.s)
               [] e.op = "look" -> /\ UNCHANGED vars /\ e.live = (e.s \in DOMAIN strs) /\ e.init = init
                                   /\ (e.live => (e.n = e.s /\ e.lev = strs[e.s].lev /\ e.ini = strs[e.s].lev /\ e.act = strs[e.s].act))
               [] e.op = "olook" -> /\ UNCHANGED vars
                                    /\ e.live = (e.o \in DOMAIN outs \/ e.o \in DOMAIN mine)
                                    /\ (e.live => e.lev = Lev(e.o))
               [] e.op = "print" -> UNCHANGED vars /\ Printed
               [] OTHER -> FALSE
TSpec == /\ init = FALSE /\ conf = Empty /\ sconf = Empty /\ oc = Empty /\ sc = Empty /\ arg = -1
         /\ facs = {} /\ strs = Empty /\ outs = Empty /\ def = -1 /\ mine = Empty
         /\ l = 0 /\ [][TNext]_<<vars, l>>
=============================================================================

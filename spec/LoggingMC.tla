----------------------------- MODULE LoggingMC -----------------------------
(* The logging framework explored: either every assignment of levels with     *)
(* two outputs and everything that can be done then ("levels"), or every      *)
(* configuration of two outputs and a stream ("setup"). Printed for replay.   *)
EXTENDS Logging, Json
CONSTANTS Mode,      \* "levels" or "setup"
          LevelsUsed,
          Rich       \* all of the configurations
VARIABLES ev, was
mvars == <<vars, ev, was>>
NoWas == [strs |-> Empty, outs |-> Empty, def |-> -2]
Facs == {"Default", "Nirwana", "QuickDebug", "IclCoreThread", "A", "B"}
MInit == /\ init = FALSE /\ conf = Empty /\ sconf = Empty /\ oc = Empty /\ sc = Empty /\ arg = -1
         /\ facs = Facs /\ strs = Empty /\ outs = Empty /\ def = -1 /\ mine = Empty
         /\ ev = [op |-> "init"] /\ was = NoWas

(* One step: the configuration is written and logging initialised with it. *)
SetUp(c, s, a) == /\ ~init /\ was = NoWas /\ conf = Empty /\ sconf = Empty
                  /\ conf' = c /\ sconf' = s /\ sc' = s /\ init' = TRUE /\ arg' = a
                  /\ Install(Configured(c, s, a))
                  /\ UNCHANGED <<facs, mine, was>> /\ ev' = [op |-> "setup", c |-> c, s |-> s, a |-> a]
Same == UNCHANGED vars /\ UNCHANGED was
Say(s, l) == Same /\ ev' = [op |-> "log", s |-> s, l |-> l, d |-> DOMAIN strs # {}]

(* ------------------------------------------------------------------ levels *)
Two == ("1" :> [ty |-> "Rec", name |-> "", lev |-> 0, ls |-> {"A"}]) @@ ("2" :> [ty |-> "RecW", name |-> "", lev |-> 0, ls |-> {"A"}])
Outs2 == {"Rec", "RecW"}
Levels == \/ SetUp(Two, Empty, -1)
          \/ /\ init /\ UNCHANGED was
             /\ \/ \E x \in 0..4 : Say("A", x)
                \/ \E x \in LevelsUsed : SetAll(x) /\ ev' = [op |-> "setall", l |-> x]
                \/ \E x \in LevelsUsed, o \in Outs2 : SetOut(o, x) /\ ev' = [op |-> "setout", o |-> o, l |-> x]
                \/ \E b \in BOOLEAN : SetActive("A", b) /\ ev' = [op |-> "active", s |-> "A", b |-> IF b THEN 1 ELSE 0]
                \/ \E o \in Outs2 : Link("A", o) /\ ev' = [op |-> "link", s |-> "A", o |-> o]
                \/ \E o \in Outs2 : Unlink("A", o) /\ ev' = [op |-> "unlink", s |-> "A", o |-> o]

(* ------------------------------------------------------------------- setup *)
OutConfs(lev) == [ty : {"", "Rec", "RecW", "Nope"}, name : {"", "n"}, lev : {lev}, ls : IF Rich THEN {{}, {"A"}, {"A", "B"}, {"Z"}} ELSE {{}, {"A"}, {"Z"}}]
Good(x) == x.ty = "" => x.name = "n"
Confs == {Empty} \cup {"1" :> x : x \in {y \in OutConfs(0) : Good(y)}}
                 \cup {("1" :> x) @@ ("2" :> z) : x \in {y \in OutConfs(0) : Good(y)}, z \in {y \in OutConfs(3) : Good(y)}}
SConfs == {Empty, "1" :> [name |-> "A", lev |-> 1]} \cup IF ~Rich THEN {} ELSE {"1" :> [name |-> "B", lev |-> 4], "1" :> [name |-> "Z", lev |-> 0]}
Stop == /\ init /\ was = NoWas /\ Shutdown /\ was' = [strs |-> strs, outs |-> outs, def |-> def] /\ ev' = [op |-> "shutdown"]
Again == /\ ~init /\ was # NoWas /\ Initialize /\ UNCHANGED was /\ ev' = [op |-> "init", how |-> "plain", arg |-> "-"]
Setup2 == \/ \E c \in Confs, s \in SConfs, a \in {-1, 1} : SetUp(c, s, a)
          \/ init /\ Same /\ ev' = [op |-> "print"]
          \/ init /\ was = NoWas /\ Reconfigure /\ UNCHANGED was /\ ev' = [op |-> "configure"]
          \/ init /\ \E s \in {"A", "B"}, x \in {1, 3} : Say(s, x)
          \/ Stop
          \/ Again
Next == IF Mode = "levels" THEN Levels ELSE Setup2
Spec == MInit /\ [][Next]_mvars
View == IF Mode = "levels" THEN <<init, outs, IF init THEN strs["A"] ELSE 0>>
                           ELSE <<init, conf, sconf, arg, strs, outs, def, was>>

(* No stream leads to an output which does not exist. *)
Attached == \A s \in DOMAIN strs : \A o \in strs[s].outs : o \in DOMAIN outs \/ (o = "*" /\ def # -1)
(* What gets a message gets every more severe one. *)
Monotone == \A s \in DOMAIN strs, x \in 0..3 : Gets(s, x) \subseteq Gets(s, x + 1)
(* Configuring again, or after a shutdown, changes nothing - unless two entries of different kinds have one name. *)
Clash == \E a, b \in DOMAIN oc : a # b /\ oc[a].name = oc[b].name /\ oc[a].ty \notin Kinds
Stable == Mode = "setup" /\ init /\ ~Clash => LET r == Configured(oc, sc, arg) IN r.strs = strs /\ r.outs = outs /\ r.def = def
Restored == init /\ ~Clash /\ was # NoWas => was.strs = strs /\ was.outs = outs /\ was.def = def
(* Every stream has a level and every message of at least level Info reaches somebody unless an output was configured. *)
Heard == Mode = "setup" /\ init /\ conf = Empty => \A s \in DOMAIN strs : strs[s].lev =< 2 => Gets(s, 3) # {}
Key(i, c, s, a, ss, os, d, w) == IF Mode = "levels" THEN [i |-> i, o |-> os, s |-> IF i THEN ss["A"] ELSE NoConf]
                                 ELSE [i |-> i, c |-> c, s |-> s, a |-> a, w |-> w = NoWas, o |-> IF i THEN <<ss["A"].outs, ss["B"].outs>> ELSE <<>>]
PrintEdge == PrintT(ToJson([E |-> [s |-> Key(init, conf, sconf, arg, strs, outs, def, was), e |-> ev',
                                   t |-> Key(init', conf', sconf', arg', strs', outs', def', was')]]))
=============================================================================

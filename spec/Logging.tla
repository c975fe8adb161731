------------------------------ MODULE Logging ------------------------------
(* The logging framework as its users see it: the configured set-up, the    *)
(* levels, the connections between streams and outputs, and which output    *)
(* gets a message. Levels: 0 Trace .. 4 Error, 5 Mute. An output is known   *)
(* by its name, "*" is the default output, those of the user (not managed   *)
(* by the framework) have names beginning with "x".                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES init,  \* the framework is initialised
          conf,  \* the configuration of outputs: entry -> [ty, name, lev, ls]
          sconf, \* the configuration of streams: entry -> [name, lev]
          oc, sc,\* what of it was in force at the initialisation
          arg,   \* the level asked for on the command line, or -1
          facs,  \* the streams which are declared
          strs,  \* the streams which exist: name -> [lev, act, outs]
          outs,  \* the managed outputs: name -> [ent, lev]
          def,   \* the level of the default output, or -1
          mine   \* the user's outputs: name -> lev

vars == <<init, conf, sconf, oc, sc, arg, facs, strs, outs, def, mine>>

Entries == <<"1", "2", "3">>          \* in the order in which they are looked at
Kinds == {"Rec", "RecW", "Stdout", "Stderr"}
Empty == [x \in {} |-> 0]
Info == 2

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
NoConf == [ty |-> "", name |-> "", lev |-> 0, ls |-> {}]
NoSConf == [name |-> "", lev |-> 0]

Connect(ss, S, o) == [s \in DOMAIN ss |-> IF s \in S THEN [ss[s] EXCEPT !.outs = @ \cup {o}] ELSE ss[s]]
Disconnect(ss, o) == [s \in DOMAIN ss |-> [ss[s] EXCEPT !.outs = @ \ {o}]]

(* Working through the configuration of outputs. *)
RECURSIVE Setup(_, _, _, _)
Setup(c, ss, os, i) ==
  IF i > Len(Entries) THEN [strs |-> ss, outs |-> os]
  ELSE IF Entries[i] \notin DOMAIN c THEN Setup(c, ss, os, i + 1)
  ELSE LET x == c[Entries[i]]
           os2 == IF x.name \in DOMAIN os \/ x.ty \notin Kinds THEN os
                  ELSE Put(os, x.name, [ent |-> Entries[i], lev |-> x.lev])
       IN IF x.name \notin DOMAIN os2 THEN Setup(c, ss, os2, i + 1)
          ELSE Setup(c, Connect(ss, IF x.ls = {} THEN DOMAIN ss ELSE x.ls, x.name), os2, i + 1)

RECURSIVE SetLevels(_, _, _)
SetLevels(c, ss, i) ==
  IF i > Len(Entries) THEN ss
  ELSE IF Entries[i] \notin DOMAIN c \/ c[Entries[i]].name \notin DOMAIN ss THEN SetLevels(c, ss, i + 1)
  ELSE SetLevels(c, [ss EXCEPT ![c[Entries[i]].name].lev = c[Entries[i]].lev], i + 1)

(* The outcome of configuring with the configurations c (outputs) and l (streams). *)
Configured(c, l, a) ==
  LET named == [e \in DOMAIN c |-> [c[e] EXCEPT !.name = IF @ = "" THEN c[e].ty ELSE @]]
      def1 == IF c = Empty /\ def = -1 THEN Info ELSE def
      new == [s \in facs \ DOMAIN strs |-> [lev |-> Info, act |-> TRUE, outs |-> IF def1 = -1 THEN {} ELSE {"*"}]]
      ss1 == [s \in (DOMAIN strs) \cup facs |-> IF s \in DOMAIN strs THEN strs[s] ELSE new[s]]
      gone == c /= Empty
      ss2 == IF gone THEN Disconnect(ss1, "*") ELSE ss1
      def2 == IF gone THEN -1 ELSE def1
      r == Setup(named, ss2, outs, 1)
      ss3 == SetLevels(l, r.strs, 1)
  IN IF a = -1
     THEN [oc |-> named, strs |-> ss3, outs |-> r.outs, def |-> def2]
     ELSE [oc |-> named,
           strs |-> Connect([s \in DOMAIN ss3 |-> [ss3[s] EXCEPT !.lev = a]], DOMAIN ss3, "*"),
           outs |-> [o \in DOMAIN r.outs |-> [r.outs[o] EXCEPT !.lev = a]],
           def |-> a]

Install(r) == /\ oc' = r.oc /\ strs' = r.strs /\ outs' = r.outs /\ def' = r.def

(* Initialising, with the level a given on the command line (-1: none). *)
InitializeWith(a) ==
              /\ init' = TRUE /\ arg' = a
              /\ sc' = (IF init THEN sc ELSE sconf)
              /\ Install(IF init THEN Configured(oc, sc, a) ELSE Configured(conf, sconf, a))
              /\ UNCHANGED <<conf, sconf, facs, mine>>
Initialize == InitializeWith(arg)

Reconfigure == /\ init /\ Install(Configured(oc, sc, arg))
               /\ UNCHANGED <<init, conf, sconf, sc, arg, facs, mine>>

Shutdown == /\ init' = FALSE /\ strs' = Empty /\ outs' = Empty /\ def' = -1
            /\ UNCHANGED <<conf, sconf, oc, sc, arg, facs, mine>>

LevIn(os, d, o) == IF o = "*" THEN d ELSE IF o \in DOMAIN mine THEN mine[o] ELSE os[o].lev
Lev(o) == LevIn(outs, def, o)

(* The stream lets a message of level l pass; the outputs that get it. *)
PassesIn(ss, s, l) == ss[s].act /\ ss[s].lev =< l
GetsIn(ss, os, d, s, l) == IF ~PassesIn(ss, s, l) THEN {}
                           ELSE {IF o \in DOMAIN os THEN os[o].ent ELSE o : o \in {p \in ss[s].outs : LevIn(os, d, p) =< l}}
Passes(s, l) == PassesIn(strs, s, l)
Gets(s, l) == GetsIn(strs, outs, def, s, l)

SetActive(s, b) == /\ strs' = [strs EXCEPT ![s].act = b]
                   /\ UNCHANGED <<init, conf, sconf, oc, sc, arg, facs, outs, def, mine>>
(* Sets the level of all streams and of all configured outputs. *)
SetAll(l) == /\ strs' = [s \in DOMAIN strs |-> [strs[s] EXCEPT !.lev = l]]
             /\ outs' = [o \in DOMAIN outs |-> [outs[o] EXCEPT !.lev = l]]
             /\ UNCHANGED <<init, conf, sconf, oc, sc, arg, facs, def, mine>>
SetOut(o, l) == /\ IF o \in DOMAIN mine THEN mine' = [mine EXCEPT ![o] = l] /\ UNCHANGED outs
                   ELSE outs' = [outs EXCEPT ![o].lev = l] /\ UNCHANGED mine
                /\ UNCHANGED <<init, conf, sconf, oc, sc, arg, facs, strs, def>>
Link(s, o) == /\ strs' = Connect(strs, {s}, o)
              /\ UNCHANGED <<init, conf, sconf, oc, sc, arg, facs, outs, def, mine>>
Unlink(s, o) == /\ strs' = [strs EXCEPT ![s].outs = @ \ {o}]
                /\ UNCHANGED <<init, conf, sconf, oc, sc, arg, facs, outs, def, mine>>
(* A managed output is taken away. *)
Drop(o) == /\ strs' = Disconnect(strs, o) /\ outs' = Cut(outs, {o})
           /\ UNCHANGED <<init, conf, sconf, oc, sc, arg, facs, def, mine>>
(* The user creates an output or a stream of his own, or declares a stream later. *)
Mine(o, l) == /\ mine' = Put(mine, o, l) /\ UNCHANGED <<init, conf, sconf, oc, sc, arg, facs, strs, outs, def>>
Own(s, l) == /\ strs' = Put(strs, s, [lev |-> l, act |-> TRUE, outs |-> IF def = -1 THEN {} ELSE {"*"}])
             /\ UNCHANGED <<init, conf, sconf, oc, sc, arg, facs, outs, def, mine>>
Declare(s) == /\ facs' = facs \cup {s} /\ UNCHANGED <<init, conf, sconf, oc, sc, arg, strs, outs, def, mine>>
=============================================================================

------------------------------ MODULE Plugins ------------------------------
(* A plugin manager: the libraries found in its directories when it is          *)
(* initialised, one instance of each plugin as soon as it is asked for, further *)
(* instances on demand, and plugins that are handed to it.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES files,  \* set of [d, n, k]: directory (sequence), name, kind of file
          paths,  \* directories to be searched
          on,     \* initialised
          lazy,   \* no instances yet
          fail,   \* files which could not be loaded
          good,   \* files which were
          dyn,    \* identifier -> kinds of the libraries that declare it
          inst,   \* identifier -> its instance; 0: not told yet
          stat,   \* identifier -> what was handed to the manager
          made    \* number of instances constructed
vars == <<files, paths, on, lazy, fail, good, dyn, inst, stat, made>>
\* what a kind of file declares: no identifier if it is no plugin for this manager
Kind == [a1 |-> [id |-> "a", ok |-> TRUE], a2 |-> [id |-> "a", ok |-> TRUE], b1 |-> [id |-> "b", ok |-> TRUE], c1 |-> [id |-> "c", ok |-> TRUE],
         noload |-> [id |-> "n", ok |-> FALSE], null |-> [id |-> "z", ok |-> FALSE], other |-> [id |-> "", ok |-> TRUE],
         noid |-> [id |-> "", ok |-> FALSE], nobase |-> [id |-> "", ok |-> FALSE], garbage |-> [id |-> "", ok |-> FALSE], empty |-> [id |-> "", ok |-> FALSE]]
Prefix(p, d) == Len(p) <= Len(d) /\ SubSeq(d, 1, Len(p)) = p
Found(rec) == {f \in files : \E i \in 1..Len(paths) : IF rec THEN Prefix(paths[i], f.d) ELSE f.d = paths[i]}
\* The manager after it has been initialised and, if asked for, has instances
Made(D) == Cardinality({i \in DOMAIN D : \E k \in D[i] : Kind[k].ok})
Setup(rec) == LET F == Found(rec)
                  ids == {Kind[f.k].id : f \in F} \ {""} IN
              [dyn |-> [i \in ids |-> {f.k : f \in {g \in F : Kind[g.k].id = i}}],
               fail |-> {f \in F : Kind[f.k].id = "" /\ ~Kind[f.k].ok}, good |-> {f \in F : Kind[f.k].ok /\ Kind[f.k].id # ""}]
Ready(rec, lz) ==
  /\ on' = TRUE /\ UNCHANGED <<files, paths, stat>>
  /\ IF ~on THEN LET S == Setup(rec) IN /\ fail' = S.fail /\ good' = S.good /\ lazy' = lz
                                        /\ made' = made + (IF lz THEN 0 ELSE Made(S.dyn))
                                        /\ dyn' = S.dyn /\ inst' = [i \in DOMAIN S.dyn |-> 0]
     ELSE /\ UNCHANGED <<fail, good, dyn, inst>> /\ lazy' = (lazy /\ lz)
          /\ made' = made + (IF lazy /\ ~lz THEN Made(dyn) ELSE 0)
\* Everything that asks for plugins does this first
Now == [d |-> IF on THEN dyn ELSE Setup(FALSE).dyn, m |-> IF ~on THEN made + Made(Setup(FALSE).dyn) ELSE IF lazy THEN made + Made(dyn) ELSE made]
Ensure == Ready(FALSE, FALSE)
Usable(D, i) == i \in DOMAIN D /\ \E k \in D[i] : Kind[k].ok
\* Instance n of kind k may be the one of identifier i
Fits(N, i, k, n) == Usable(N.d, i) /\ k \in N.d[i] /\ n \in 1..N.m
                    /\ (on /\ inst[i] # 0 => n = inst[i]) /\ (on => \A j \in DOMAIN inst : j # i => inst[j] # n)
\* What was learnt: L is a set of [i, k, n]
Learn(L, N, u) ==
  /\ on' = TRUE /\ lazy' = FALSE /\ made' = N.m + u /\ UNCHANGED <<files, paths, stat>>
  /\ IF on THEN UNCHANGED <<fail, good>> ELSE LET S == Setup(FALSE) IN fail' = S.fail /\ good' = S.good
  /\ dyn' = [i \in DOMAIN N.d |-> IF \E x \in L : x.i = i THEN {(CHOOSE x \in L : x.i = i).k} ELSE N.d[i]]
  /\ inst' = [i \in DOMAIN N.d |-> IF \E x \in L : x.i = i /\ x.n # 0 THEN (CHOOSE x \in L : x.i = i /\ x.n # 0).n ELSE IF on THEN inst[i] ELSE 0]
Initialize(lz, rec) == Ready(rec, lz)
Available(ids) == LET N == Now IN
  /\ \A i \in DOMAIN N.d \cup DOMAIN stat \cup {ids[j] : j \in 1..Len(ids)} :
        Cardinality({j \in 1..Len(ids) : ids[j] = i}) = (IF i \in DOMAIN N.d THEN 1 ELSE 0) + (IF i \in DOMAIN stat THEN 1 ELSE 0)
  /\ Learn({}, N, 0)
\* all instances: ps is a sequence of [k, n]
All(ps) == LET N == Now
               P == {ps[j] : j \in 1..Len(ps)}
               U == {i \in DOMAIN N.d : Usable(N.d, i)}
               L == {[i |-> Kind[p.k].id, k |-> p.k, n |-> p.n] : p \in {q \in P : q.k # "static"}} IN
  /\ Len(ps) = Cardinality(U) + Cardinality(DOMAIN stat)
  /\ \A n \in {stat[i] : i \in DOMAIN stat} : Cardinality({j \in 1..Len(ps) : ps[j] = [k |-> "static", n |-> n]}) = Cardinality({i \in DOMAIN stat : stat[i] = n})
  /\ {x.i : x \in L} = U /\ \A x \in L : Fits(N, x.i, x.k, x.n)
  /\ Learn(L, N, 0)
Plugin(i, k, n) == LET N == Now IN
  IF i \in DOMAIN stat THEN k = "static" /\ n = stat[i] /\ Learn({}, N, 0)
  ELSE IF Usable(N.d, i) THEN Fits(N, i, k, n) /\ Learn({[i |-> i, k |-> k, n |-> n]}, N, 0)
  ELSE k = "" /\ Learn({}, N, 0)
Create(i, k, n) == LET N == Now IN
  IF Usable(N.d, i) THEN k \in N.d[i] /\ n = N.m + 1 /\ Learn({[i |-> i, k |-> k, n |-> 0]}, N, 1)
  ELSE k = "" /\ Learn({}, N, 0)
Rest == UNCHANGED <<files, paths, on, lazy, fail, good, dyn, inst, made>>
Hand(i, n) == stat' = [j \in DOMAIN stat \cup {i} |-> IF j = i THEN n ELSE stat[j]] /\ Rest
Drop(i) == stat' = [j \in DOMAIN stat \ {i} |-> stat[j]] /\ Rest
Path(p) == paths' = (IF p = <<>> THEN paths ELSE Append(paths, p)) /\ UNCHANGED <<files, on, lazy, fail, good, dyn, inst, stat, made>>
\* every file that could not be loaded is reported, and none that was
Reported(m) == fail \subseteq m /\ m \cap good = {}
Loaded == IF on /\ ~lazy THEN Made(dyn) ELSE 0
=============================================================================

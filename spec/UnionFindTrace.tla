--------------------------- MODULE UnionFindTrace ---------------------------
EXTENDS UnionFind, TraceBase
e == Ln
Obs(c, exc) == cls' = c /\ e.exc = exc /\ e.n = Len(c) /\ ValidFind(c, e.f) /\ ev' = e
TNext ==
  /\ Step
  /\ CASE e.op = "new" -> Obs([i \in 1..e.c |-> {i - 1}], FALSE)
       [] e.op = "merge" -> IF In(e.x) /\ In(e.y) THEN Obs(MergeSets(cls, e.x, e.y), FALSE) ELSE Obs(cls, TRUE)
       [] e.op = "find" -> IF In(e.x) THEN Obs(cls, FALSE) /\ e.ret \in cls[e.x + 1] /\ e.ret = e.f[e.x + 1] ELSE Obs(cls, TRUE)
       [] e.op = "grow" -> Obs(GrowSets(cls, e.c), FALSE)
       [] e.op = "copy" -> Obs(cls, FALSE)
       [] OTHER -> FALSE
TSpec == cls = << >> /\ ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<cls, ev, l>>
=============================================================================

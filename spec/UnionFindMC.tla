---------------------------- MODULE UnionFindMC ----------------------------
(***************************************************************************)
(* The forest-with-ranks design (union by rank, path compression) refines  *)
(* the partition; every transition of the forest is replayed on the code.  *)
(***************************************************************************)
EXTENDS UnionFind, Json
CONSTANT MaxNodes
VARIABLES par, rnk
RECURSIVE Root(_, _)
Root(p, x) == IF p[x + 1] = x THEN x ELSE Root(p, p[x + 1])
RECURSIVE Compress(_, _)
Compress(p, x) == IF p[x + 1] = x THEN p
                  ELSE [Compress(p, p[x + 1]) EXCEPT ![x + 1] = Root(p, x)]
Nodes == 0..(MaxNodes - 1)
Key == [p |-> par, r |-> rnk]
MNew(k) == N = 0 /\ cls' = [i \in 1..k |-> {i - 1}] /\ par' = [i \in 1..k |-> i - 1] /\ rnk' = [i \in 1..k |-> 0]
  /\ ev' = [op |-> "new", c |-> k]
MMerge(x, y) == In(x) /\ In(y) /\ cls' = MergeSets(cls, x, y) /\ ev' = [op |-> "merge", x |-> x, y |-> y]
  /\ LET q == Compress(Compress(par, x), y) rx == Root(q, x) ry == Root(q, y) IN
     IF rx = ry THEN par' = q /\ rnk' = rnk
     ELSE IF rnk[rx + 1] < rnk[ry + 1] THEN par' = [q EXCEPT ![rx + 1] = ry] /\ rnk' = rnk
     ELSE IF rnk[rx + 1] > rnk[ry + 1] THEN par' = [q EXCEPT ![ry + 1] = rx] /\ rnk' = rnk
     ELSE par' = [q EXCEPT ![ry + 1] = rx] /\ rnk' = [rnk EXCEPT ![rx + 1] = @ + 1]
MFind(x) == In(x) /\ cls' = cls /\ rnk' = rnk /\ par' = Compress(par, x) /\ ev' = [op |-> "find", x |-> x]
MGrow(k) == N > 0 /\ N + k <= MaxNodes /\ cls' = GrowSets(cls, k) /\ par' = par \o [i \in 1..k |-> N + i - 1] /\ rnk' = rnk \o [i \in 1..k |-> 0]
  /\ ev' = [op |-> "grow", c |-> k]
MBad(x) == N > 0 /\ UNCHANGED <<cls, par, rnk>> /\ ev' = [op |-> "find", x |-> x]
MInit == cls = << >> /\ par = << >> /\ rnk = << >> /\ ev = [op |-> "init"]
MNext == \/ \E k \in 1..MaxNodes : MNew(k)
         \/ \E x, y \in Nodes : MMerge(x, y)
         \/ \E x \in Nodes : MFind(x)
         \/ \E k \in 1..2 : MGrow(k)
         \/ MBad(N)
MSpec == MInit /\ [][MNext]_<<cls, ev, par, rnk>>
View == <<cls, par, rnk>>
Inv == /\ ValidFind(cls, [i \in 1..N |-> Root(par, i - 1)])
       /\ \A i \in 1..N : (i - 1) \in cls[i] /\ \A j \in 1..N : cls[i] = cls[j] \/ cls[i] \cap cls[j] = {}
       /\ \A i \in 1..N : par[i] # i - 1 => rnk[i] < rnk[par[i] + 1]
PrintEdge == N = 0 \/ PrintT(ToJson([E |-> [s |-> Key, e |-> ev', t |-> Key']]))
=============================================================================

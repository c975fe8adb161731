----------------------------- MODULE UnionFind -----------------------------
(* icl_core::UnionFind: the partition of 0..n-1 generated by the merges.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cls,   \* cls[i]: the set of indices connected to index i-1
          ev
N == Len(cls)
In(x) == x \in 0..(N - 1)
(* f[i]: the representative reported for index i-1.                          *)
ValidFind(c, f) ==
  /\ Len(f) = Len(c)
  /\ \A i \in 1..Len(c) : f[i] \in c[i]
  /\ \A i, j \in 1..Len(c) : (f[i] = f[j]) <=> (c[i] = c[j])
MergeSets(c, x, y) == LET u == c[x + 1] \cup c[y + 1] IN [i \in 1..Len(c) |-> IF (i - 1) \in u THEN u ELSE c[i]]
GrowSets(c, k) == [i \in 1..(Len(c) + k) |-> IF i <= Len(c) THEN c[i] ELSE {i - 1}]
=============================================================================

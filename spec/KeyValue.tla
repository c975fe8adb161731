------------------------------ MODULE KeyValue ------------------------------
(* icl_core::KeyValueDirectory: a finite map from keys to values, and queries *)
(* that enumerate the keys matching a pattern.                                *)
EXTENDS Bytes
VARIABLES dir,  \* function from keys (byte strings) to values
          ev
Keys == DOMAIN dir
EmptyDir == << >>     \* the function with empty domain
Put(d, k, v) == [x \in (DOMAIN d) \cup {k} |-> IF x = k THEN v ELSE d[x]]

(* Patterns.  kind 0: pre, anything, suf.  kind 1: exactly pre suf, each a    *)
(* group.  kind 2: pre, anything without a slash, suf.                        *)
Mid(k, p) == SubSeq(k, Len(p.pre) + 1, Len(k) - Len(p.suf))
Matches(k, p) ==
  IF p.kind = 1 THEN k = p.pre \o p.suf
  ELSE /\ Len(k) >= Len(p.pre) + Len(p.suf) /\ StartsWith(k, p.pre) /\ EndsWith(k, p.suf)
       /\ p.kind = 2 => 47 \notin Range(Mid(k, p))
Groups(k, p) == IF p.kind = 1 THEN <<k, p.pre, p.suf, << >> >> ELSE <<k, Mid(k, p), << >>, << >> >>
Found(p) == {k \in Keys : Matches(k, p)}
(* Every matching entry is reported exactly once with its current value.      *)
Complete(res, p) ==
  /\ Len(res) = Cardinality(Found(p))
  /\ {res[i].k : i \in 1..Len(res)} = Found(p)
  /\ \A i \in 1..Len(res) : res[i].v = dir[res[i].k] /\ res[i].g = Groups(res[i].k, p)

Insert(k, v) == dir' = Put(dir, k, v) /\ ev' = [op |-> "insert", k |-> k, v |-> v, fresh |-> k \notin Keys]
Get(k) == dir' = dir /\ ev' = [op |-> "get", k |-> k, found |-> k \in Keys, has |-> k \in Keys, v |-> IF k \in Keys THEN dir[k] ELSE -1]
=============================================================================

------------------------------ MODULE RecordsMC ------------------------------
(* Databases: all histories of opening, logging and days that pass.             *)
EXTENDS Records, Json
CONSTANTS MaxDay, MaxMsg, MaxMake
VARIABLES ev, said, made   \* said: number of messages that were admitted
First == 18320 * 86400 + 5
mvars == <<vars, ev, said, made>>
M(l) == [l |-> l, s |-> <<115>>, c |-> <<>>, o |-> <<>>, d |-> <<>>, f |-> <<102>>, n |-> said, t |-> <<97 + said>>, w |-> now]
Init == kind = "" /\ sys = <<>> /\ lev = 0 /\ rot = FALSE /\ last = 0 /\ now = [s |-> First, n |-> 0] /\ q = <<>> /\ dbs = [x \in {} |-> 0] /\ dirs = {}
        /\ ev = [op |-> "new"] /\ said = 0 /\ made = 0
Next ==
  \/ \E r \in BOOLEAN : made < MaxMake /\ q = <<>> /\ Make("sql", <<>>, 2, r) /\ made' = made + 1 /\ UNCHANGED said /\ ev' = [op |-> "make", rot |-> r]
  \/ \E l \in {1, 2} : kind = "sql" /\ said < MaxMsg /\ Push(M(l)) /\ said' = (IF l = 2 THEN said + 1 ELSE said) /\ UNCHANGED made
                       /\ ev' = [op |-> "push", l |-> l, n |-> said, t |-> 97 + said]
  \/ kind = "sql" /\ Sync /\ UNCHANGED <<said, made>> /\ ev' = [op |-> "sync"]
  \/ q = <<>> /\ Today < 18320 + MaxDay /\ Tick(now.s + 86400, 0) /\ UNCHANGED <<said, made>> /\ ev' = [op |-> "tick", s |-> now.s + 86400, n |-> 0]
  \/ q = <<>> /\ dirs = {} /\ Dated \notin DOMAIN dbs /\ Dir(Dated) /\ UNCHANGED <<said, made>> /\ ev' = [op |-> "dir", n |-> Dated]
Spec == Init /\ [][Next]_mvars
View == <<kind, rot, last, now, q, dbs, dirs, said, made>>
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET n == CHOOSE x \in S : TRUE IN Len(dbs[n]) + Total(S \ {n})
\* No message is lost or doubled, wherever it is kept; within a database they are in order
Kept == Total(DOMAIN dbs) + Len(q) = said
Each == \A k \in 0..(said - 1) : Len(SelectSeq(q, LAMBDA m : m.n = k)) + Cardinality({n \in DOMAIN dbs : \E i \in 1..Len(dbs[n]) : dbs[n][i].n = k}) = 1
Ordered == \A n \in DOMAIN dbs : \A i, j \in 1..Len(dbs[n]) : i < j => dbs[n][i].n < dbs[n][j].n
\* What was moved aside is not touched again
Aside == [][\A n \in DOMAIN dbs \ {Base} : n \in DOMAIN dbs' /\ dbs'[n] = dbs[n]]_mvars
PrintEdge == PrintT(ToJson([E |-> [s |-> View, e |-> ev', t |-> View']]))
=============================================================================

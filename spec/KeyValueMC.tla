----------------------------- MODULE KeyValueMC -----------------------------
EXTENDS KeyValue, Json
CONSTANTS MaxLen, Alpha, Vals
Strs(n) == UNION {[1..k -> Alpha] : k \in 0..n}
KeySet == {<<47, 97>>, <<47, 97, 47>>, <<97>>, << >>, <<47, 97, 47, 97>>}
Pats == {[pre |-> a, suf |-> b, kind |-> k] : a \in Strs(1), b \in Strs(1), k \in 0..2}
Key == {<<k, dir[k]>> : k \in Keys}
MInsert == \E k \in KeySet, v \in Vals : Insert(k, v)
MGet == \E k \in KeySet : Get(k)
MQuery == \E p \in Pats : dir' = dir /\ ev' = [op |-> "query"] @@ p
MInit == dir = EmptyDir /\ ev = [op |-> "init"]
MSpec == MInit /\ [][MInsert \/ MGet \/ MQuery]_<<dir, ev>>
View == dir
Inv == \A p \in Pats : \A k \in Found(p) : LET g == Groups(k, p) IN p.kind # 1 => k = p.pre \o g[2] \o p.suf
LastWins == [][\A k \in Keys : k \in DOMAIN dir' /\ (ev'.op = "insert" /\ ev'.k = k => dir'[k] = ev'.v) /\ (~(ev'.op = "insert" /\ ev'.k = k) => dir'[k] = dir[k])]_<<dir, ev>>
PrintEdge == PrintT(ToJson([E |-> [s |-> Key, e |-> ev', t |-> Key']]))
=============================================================================

--------------------------- MODULE DepthBufferMC ---------------------------
EXTENDS DepthBuffer, TLC, Json
N == 2
V == 1..3
MInit == \E o \in {"lt", "gt"} : cells = [i \in 1..N |-> <<>>] /\ order = o /\ st = NoStamp /\ ev = [op |-> "new"]
MNext == \/ \E i \in 1..N : \E v \in V : Update(i, v) /\ ev' = [op |-> "update", i |-> i - 1, v |-> v]
         \/ Reset /\ ev' = [op |-> "reset"]
Key == [c |-> cells, o |-> order]
View == Key
PrintEdge == PrintT(ToJson([E |-> [s |-> Key, e |-> ev', t |-> [c |-> cells', o |-> order']]]))
MSpec == MInit /\ [][MNext]_dvars
\* A cell never gets worse except by emptying
Monotone == [][ev'.op = "update" => \A i \in 1..N : cells[i] # <<>> => (cells'[i] # <<>> /\ ~Better(cells[i][1], cells'[i][1]))]_dvars
=============================================================================

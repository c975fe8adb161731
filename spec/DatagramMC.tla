----------------------------- MODULE DatagramMC -----------------------------
(* Every short text as an item of a datagram: the items can be read back.       *)
EXTENDS Records, Json
CONSTANTS MaxLen
VARIABLES ev
A == {39, 92, 44, 97}
Texts == UNION {[1..k -> A] : k \in 0..MaxLen}
M(o, t) == [l |-> 2, s |-> <<115>>, c |-> <<>>, o |-> o, d |-> <<100>>, f |-> <<102>>, n |-> 7, t |-> t, w |-> now]
Init == kind = "udp" /\ sys \in Texts /\ lev = 0 /\ rot = FALSE /\ last = 0 /\ now = [s |-> 86400, n |-> 5000] /\ q = <<>> /\ dbs = [x \in {} |-> 0] /\ dirs = {} /\ ev = [op |-> "new"]
Next == /\ q = <<>> /\ \E o, t \in Texts : (Len(o) < 2 \/ Len(t) < 2) /\ Push(M(o, t)) /\ ev' = [op |-> "push", o |-> o, t |-> t]
Spec == Init /\ [][Next]_<<vars, ev>>
Read == \A i \in 1..Len(q) : Faithful(q[i])
PrintEdge == PrintT(ToJson([E |-> [s |-> sys, e |-> ev', t |-> 0]]))
=============================================================================

------------------------------ MODULE HelpersMC ------------------------------
EXTENDS Helpers, Json
CONSTANTS V, Dim, MaxLen
Key == [s |-> stk, w |-> w, h |-> h, c |-> cells, v |-> vec]
\* The three objects are independent: only one is away from its initial state at a time.
OnlyS == cells = << >> /\ vec = << >> /\ w = 0 /\ h = 0
OnlyA == stk = << >> /\ vec = << >>
OnlyV == stk = << >> /\ cells = << >> /\ w = 0 /\ h = 0
MStack == OnlyS /\ (\/ Len(stk) < MaxLen /\ \E v \in V : SPush(v)
                    \/ SPop \/ SClear
                    \/ \E v \in V : STop(v)
                    \/ \E v \in V \cup {9} : SFind(v))
MArray == OnlyA /\ (\/ \E x, y \in Dim, v \in {0, 5} : ANew(x, y, v) \/ AResize(x, y, v) \/ AAssign(x, y, v) \/ ASwap(x, y, v)
                    \/ \E v \in {0, 5} : AFill(v)
                    \/ \E x, y \in Dim : APut(x, y, 7)
                    \/ ACopy)
MVec == OnlyV /\ (\/ Len(vec) < MaxLen /\ (\E v \in V : VPush(v))
                  \/ Len(vec) < MaxLen - 1 /\ (\E p \in 0..MaxLen, n \in 0..2, v \in V : VIns(p, n, v))
                  \/ VPop \/ VClear
                  \/ \E p, q \in 0..MaxLen : VErase(p, q)
                  \/ \E n \in 0..MaxLen, v \in V : VResize(n, v) \/ VAssign(n, v))
MInit == stk = << >> /\ w = 0 /\ h = 0 /\ cells = << >> /\ vec = << >> /\ ev = [op |-> "init"]
MSpec == MInit /\ [][MStack \/ MArray \/ MVec]_<<vars, ev>>
View == vars
Inv == Len(cells) = w * h
PrintEdge == PrintT(ToJson([E |-> [s |-> Key, e |-> ev', t |-> Key']]))
=============================================================================

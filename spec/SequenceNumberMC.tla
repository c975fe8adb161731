-------------------------- MODULE SequenceNumberMC --------------------------
EXTENDS SequenceNumber, Json
CONSTANT Types   \* index -> <<max, min, init>>, as instantiated by the harness
VARIABLE ty
T == <<<<5, 0, 0>>, <<6, 0, 0>>, <<10, 3, 3>>, <<255, 0, 0>>, <<7, 2, 4>>, <<11, -4, -4>>, <<16, 8, 9>>, <<40, 21, 30>>>>
Key == [t |-> ty, v |-> val]
MNew == \E t \in Types : ty = 0 /\ ty' = t /\ mx' = T[t][1] /\ mn' = T[t][2] /\ val' = T[t][3]
          /\ ev' = [op |-> "new", t |-> t, def |-> TRUE, b |-> 0]
Steps == ty # 0 /\ ty' = ty /\
  \/ \E k \in BOOLEAN : Inc(k)
  \/ \E b \in mn..(mx - 1) : Set(b)
  \/ \E b \in mn..(mx - 1) : UNCHANGED <<mx, mn, val>> /\ ev' = [op |-> "cmp", b |-> b]
MSpec == mx = 1 /\ mn = 0 /\ val = 0 /\ ty = 0 /\ ev = [op |-> "init"] /\ [][MNew \/ Steps]_<<mx, mn, val, ty, ev>>
View == <<ty, val>>
\* The next number is always higher; the relation is antisymmetric and decided away from half a cycle.
Inv == ty # 0 => /\ val \in mn..(mx - 1)
                 /\ Cycle > 3 => Lower(val, Succ(val))
                 /\ \A b \in mn..(mx - 1) : ~(Lower(val, b) /\ Lower(b, val))
                 /\ \A b \in mn..(mx - 1) : val = b \/ Lower(val, b) \/ Lower(b, val) \/ 2 * Ahead(val, b) \in (Cycle - 1)..(Cycle + 1)
                 /\ Ahead(val, Succ(val)) = IF Cycle = 1 THEN 0 ELSE 1
PrintEdge == ty = 0 \/ PrintT(ToJson([E |-> [s |-> Key, e |-> ev', t |-> Key']]))
=============================================================================

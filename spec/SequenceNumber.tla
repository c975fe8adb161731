--------------------------- MODULE SequenceNumber ---------------------------
(* icl_core::SequenceNumber: counts min..max-1 cyclically and compares by     *)
(* position on the cycle.                                                     *)
EXTENDS Integers, Sequences, TLC
VARIABLES mx, mn, val, ev
Cycle == mx - mn
Succ(v) == IF v + 1 >= mx THEN mn ELSE v + 1
\* Increments needed to get from a to b (both in min..max-1).
Ahead(a, b) == IF b >= a THEN b - a ELSE b - a + Cycle
Half == Cycle \div 2
(* The order is determined when one number is less than half a cycle ahead of *)
(* the other; at (about) half a cycle either answer is legitimate.            *)
Lower(a, b) == a # b /\ Ahead(a, b) < Half
LegalCmp(a, b, r) ==
  /\ r.eq = (a = b) /\ r.ne = (a # b)
  /\ Lower(a, b) => r.lt /\ r.le /\ ~r.gt /\ ~r.ge
  /\ Lower(b, a) => ~r.lt /\ ~r.le /\ r.gt /\ r.ge
  /\ a = b => ~r.lt /\ r.le /\ ~r.gt /\ r.ge
Inc(kind) == val' = Succ(val) /\ UNCHANGED <<mx, mn>>
  /\ ev' = [op |-> "inc", post |-> kind, ret |-> IF kind THEN val ELSE Succ(val), v |-> Succ(val)]
Set(b) == val' = b /\ UNCHANGED <<mx, mn>> /\ ev' = [op |-> "set", b |-> b, v |-> b]
=============================================================================

------------------------------- MODULE TreeMC -------------------------------
(* All forests of at most MaxNodes nodes ever made, every operation on every *)
(* node; each transition is replayed on the implementation.                  *)
EXTENDS Tree, Json
CONSTANTS MaxNodes, Flags, Short
Hs == 1..MaxNodes
Ds == IF Short THEN {B("a")} ELSE {B("a"), B("1")}
As == {None, <<B("x")>>}
Paths == {<< >>, <<B("a")>>} \cup (IF Short THEN {} ELSE {<<B("1")>>}) \cup {<<B("a"), IF Short THEN B("a") ELSE B("1")>>}
Dot(p) == JoinWith(p, B("."))
Fits(F) == Len(F) <= MaxNodes
Do(F, o) == Fits(F) /\ f' = F /\ ev' = o
Has(h) == IsNode(f, h)
MInit == f = << >> /\ ev = [op |-> "init"]
MMake(p, d) == (p = 0 \/ Has(p)) /\ Do(New(f, p, d, None, FALSE), [op |-> "make", p |-> p, d |-> d])
MCopy(h, p) == Has(h) /\ (p = 0 \/ Has(p)) /\ Do(Copy(f, h, p), [op |-> "copy", h |-> h, p |-> p])
MUn(h) == Has(h) /\ \/ Do(Delete(f, h), [op |-> "delete", h |-> h])
                    \/ Do(Unlink(f, h), [op |-> "unlink", h |-> h])
                    \/ Do(UnlinkSub(f, h), [op |-> "unlinkSub", h |-> h])
                    \/ Do(RevertAll(f, h), [op |-> "revert", h |-> h])
                    \/ (Flags /\ Do(Unmark(f, h), [op |-> "unmark", h |-> h]))
                    \/ Do(f, [op |-> "ask", h |-> h])
                    \/ Do(Reach(f, h, <<Fresh(f, h, << >>)>>).f, [op |-> "addNew", h |-> h])
MSet(h, p, a) == Has(h) /\ \/ Do(SetPath(f, h, p, a).f, [op |-> "set", h |-> h, path |-> Dot(p), a |-> a])
                           \/ Do(f, [op |-> "get", h |-> h, path |-> Dot(p), a |-> a])
                           \/ (p # << >> /\ Do(IF Lookup(f, h, p) # 0 THEN f ELSE SetPath(f, h, p, a).f, [op |-> "getOr", h |-> h, path |-> Dot(p), a |-> a]))
MAttr(h, a) == Has(h) /\ Do(SetAttr(f, h, a), [op |-> "setAttr", h |-> h, a |-> a])
MDesc(h, d) == Has(h) /\ \/ Do(SetDesc(f, h, <<d>>), [op |-> "setDesc", h |-> h, d |-> <<d>>])
                         \/ Do(f, [op |-> "search", h |-> h, d |-> <<d>>, a |-> None])
                         \/ Do(f, [op |-> "fresh", h |-> h, d |-> <<d>>])
Below(h, t) == \E i \in 1..Len(Up(f, h)) : Up(f, h)[i] = t
MAdd(h, t) == Has(h) /\ Has(t) /\ h # t /\ ~Below(h, t) /\
  \/ Do(Add(f, h, t, 0), [op |-> "add", h |-> h, t |-> t])
  \/ Do(IF f[h].p = 0 THEN f ELSE Add(f, f[h].p, t, h), [op |-> "addNext", h |-> h, t |-> t])
MNext == \/ \E p \in 0..MaxNodes, d \in {<<x>> : x \in Ds} : MMake(p, d)
         \/ \E h \in Hs, p \in 0..MaxNodes : MCopy(h, p)
         \/ \E h \in Hs : MUn(h)
         \/ \E h \in Hs, p \in Paths, a \in As : MSet(h, p, a)
         \/ \E h \in Hs, a \in As : MAttr(h, a)
         \/ \E h \in Hs, d \in Ds : MDesc(h, d)
         \/ \E h, t \in Hs : MAdd(h, t)
MSpec == MInit /\ [][MNext]_<<f, ev>>
NoFlags(F) == IF Flags THEN F ELSE [i \in 1..Len(F) |-> [F[i] EXCEPT !.c = FALSE]]
View == NoFlags(f)
Inv == WellFormed(f)
(* An edit of one node leaves every other tree of the forest as it is.       *)
Touched == IF "h" \in DOMAIN ev' THEN {Root(f, ev'.h)} \cup (IF "t" \in DOMAIN ev' THEN {Root(f, ev'.t)} ELSE {})
              \cup (IF "p" \in DOMAIN ev' /\ ev'.p # 0 THEN {Root(f, ev'.p)} ELSE {})
           ELSE IF "p" \in DOMAIN ev' /\ ev'.p # 0 THEN {Root(f, ev'.p)} ELSE {}
Local == [][\A h \in Alive(f) : Root(f, h) \notin Touched => f'[h] = f[h]]_<<f, ev>>
PrintEdge == PrintT(ToJson([E |-> [s |-> View, e |-> ev', t |-> NoFlags(f')]]))
=============================================================================

----------------------------- MODULE TreeFileMC -----------------------------
(* Every small tree survives saving and loading, in every style; every such   *)
(* tree is then saved and loaded by the implementation.                       *)
EXTENDS TreeFile, Json
CONSTANTS MaxNodes, Names
VARIABLE n
MCNames == {B("a"), B("b"), COMMENT, INCLUDE}
X == B("x")
TextsOf(d) == IF d = COMMENT THEN {None, <<X>>, <<X \o <<NL>> \o X>>} ELSE IF d = INCLUDE THEN {<<X>>} ELSE {None, <<<< >>>>, <<X>>}
Free(x, d) == d = INCLUDE \/ KidIx(x, d) = 0
Leafs(d) == d \in {COMMENT, INCLUDE}
RECURSIVE Grown(_)
Grown(x) ==
  IF x.d # None /\ Leafs(x.d[1]) THEN {}
  ELSE {Front(x, Tree(<<d>>, a, << >>)) : d \in {y \in Names : Free(x, y)}, a \in UNION {TextsOf(y) : y \in Names}}
       \cup UNION {{Put(x, i, y) : y \in Grown(x.k[i])} : i \in 1..Len(x.k)}
RECURSIVE Fits(_)
Fits(x) == (x.d = None \/ x.a \in TextsOf(x.d[1])) /\ \A i \in 1..Len(x.k) : Fits(x.k[i])
MInit == n = 1 /\ ev = "init" /\ t \in {Tree(d, a, << >>) : d \in {None, <<B("r")>>}, a \in {None, <<X>>}}
MNext == n < MaxNodes /\ n' = n + 1 /\ ev' = "grow" /\ t' \in {x \in Grown(t) : Fits(x)}
MSpec == MInit /\ [][MNext]_<<t, ev, n>>
View == t
F(depth) == <<[n |-> B("f"), l |-> Lines(t, depth, << >>)]>>
Back(depth) == Load(Tree(None, None, << >>), B("/d/"), B("f"), F(depth), Again)
RoundTrip == \A depth \in 0..4 : Back(depth) = [t |-> Reloaded(t, depth, B("/d/"), B("f")), ok |-> TRUE]
PrintEdge == PrintT(ToJson([E |-> [s |-> t, e |-> [op |-> "grow"], t |-> t']]))
=============================================================================

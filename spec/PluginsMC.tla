------------------------------ MODULE PluginsMC ------------------------------
(* All histories of requests to a manager with a few files.                     *)
EXTENDS Plugins, Json
CONSTANTS MaxMade
VARIABLE ev
F(d, n, k) == [d |-> d, n |-> n, k |-> k]
Layout == {F(<<"p">>, "a", "a1"), F(<<"p">>, "g", "garbage"), F(<<"p", "q">>, "b", "b1"), F(<<"r">>, "n", "null"), F(<<"r">>, "i", "noid")}
None == [x \in {} |-> 0]
Ids == {"a", "b", "z", "u"}
MInit == files = Layout /\ paths \in {<<<<"p">>>>, <<<<"r">>, <<"nowhere">>>>} /\ on = FALSE /\ lazy = FALSE /\ fail = {} /\ good = {} /\ dyn = None /\ inst = None
         /\ stat = None /\ made = 0 /\ ev = [op |-> "new"]
One(i) == (CHOOSE k \in Now.d[i] : TRUE)
Next == \/ \E z, r \in BOOLEAN : Initialize(z, r) /\ ev' = [op |-> "init", lazy |-> z, rec |-> r]
        \/ \E i \in Ids : \/ \E k \in {"", "static", "a1", "b1", "null"}, n \in 0..(Now.m + 2) : Plugin(i, k, n) /\ ev' = [op |-> "plugin", id |-> i]
                          \/ made < MaxMade /\ \E k \in {"", "a1", "b1", "null"}, n \in 0..(Now.m + 1) : Create(i, k, n) /\ ev' = [op |-> "create", id |-> i]
        \/ \E i \in {"a", "u"} : \/ \E n \in 1..2 : Hand(i, n) /\ ev' = [op |-> "hand", id |-> i, n |-> n]
                                 \/ Drop(i) /\ ev' = [op |-> "drop", id |-> i]
                                 \/ UNCHANGED vars /\ ev' = [op |-> "isstatic", id |-> i]
        \/ Learn({}, Now, 0) /\ ev' = [op |-> "avail"]
        \/ Learn({}, Now, 0) /\ ev' = [op |-> "all"]
        \/ Len(paths) < 2 /\ Path(<<"r">>) /\ ev' = [op |-> "path", p |-> <<"r">>]
        \/ UNCHANGED vars /\ ev' = [op |-> "errors"]
Spec == MInit /\ [][Next]_<<vars, ev>>
View == <<paths, on, lazy, fail, dyn, stat, made>>
\* Nothing is instantiated before it is asked for; what is found once stays; an unknown identifier changes nothing
Idle == (~on \/ lazy) => made = 0
Stays == [][on => DOMAIN dyn' = DOMAIN dyn]_<<vars, ev>>
Harmless == [][ev'.op \in {"plugin", "create"} /\ on /\ ~lazy /\ ~Usable(dyn, ev'.id) => dyn' = dyn /\ made' = made /\ stat' = stat]_<<vars, ev>>
Apart == \A f \in fail : f \notin good
\* (the numbers of the instances are left out: they do not matter)
PrintEdge == PrintT(ToJson([E |-> [s |-> View, e |-> ev', t |-> View']]))
=============================================================================

------------------------------- MODULE SchemeMC -------------------------------
\* For all parts of a small domain: printing and parsing gives the parts back. The texts are replayed on the code.
EXTENDS Scheme, Json
Names == {<<>>, B("file://"), B("gps://"), B("a+b://")}
Specs == {B("x"), B("/p a.b"), B("//"), B("h:1/=&")}
Anchors == {<<>>, B("a1"), B("b-2")}
Pairs == {[k |-> B("k"), v |-> B("1#")], [k |-> B("k_2"), v |-> B("=/")]}
Qs == {<<>>} \cup {<<p>> : p \in Pairs} \cup {<<p, q>> : p \in Pairs, q \in Pairs}
All == {[type |-> TypeOf(n), name |-> n, spec |-> s, anchor |-> a, q |-> q] : n \in Names, s \in Specs, a \in Anchors, q \in Qs}
MInit == res = Empty /\ ev = [op |-> "init"]
MNext == \E p \in All : /\ ev.op = "init" /\ DoParse(PrintP(p), TRUE, p) /\ ev' = [op |-> "parse", text |-> PrintP(p)]
PrintEdge == PrintT(ToJson([E |-> [s |-> 0, e |-> ev', t |-> 0]]))
MSpec == MInit /\ [][MNext]_svars
RoundTrip == ev.op = "parse" => PrintP(res) = ev.text
=============================================================================

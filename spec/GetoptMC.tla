------------------------------ MODULE GetoptMC ------------------------------
(* All command lines of up to L arguments from a pool, for some declarations.   *)
EXTENDS Getopt, Json
CONSTANTS L, NDecl
VARIABLES args, d
vars == <<decl, s, args, d>>
O(nm, sh, v, p) == [name |-> B(nm), short |-> B(sh), val |-> v, pre |-> p]
HelpOpt == O("help", "h", FALSE, FALSE)
Ds == << [opts |-> <<HelpOpt, O("foo", "f", TRUE, FALSE), O("bar", "b", FALSE, FALSE), O("o/", "p", TRUE, TRUE)>>, req |-> <<>>, opt |-> <<>>, strict |-> TRUE, extra |-> TRUE, delim |-> B("--")],
         [opts |-> <<HelpOpt, O("foo", "", TRUE, FALSE), O("x", "f", FALSE, TRUE)>>, req |-> <<B("r")>>, opt |-> <<B("q")>>, strict |-> FALSE, extra |-> FALSE, delim |-> B("--")],
         [opts |-> <<HelpOpt, O("foo", "f", FALSE, FALSE), O("o/", "o", FALSE, TRUE), O("p", "", TRUE, TRUE)>>, req |-> <<>>, opt |-> <<B("foo"), B("q")>>, strict |-> FALSE, extra |-> TRUE, delim |-> B("+")] >>
Pool == {B("--foo=v"), B("--foo"), B("--foo="), B("-f"), B("--bar"), B("-b"), B("--o/k=w"), B("-pk"), B("--xy=1"), B("a"), B("--"), B("-h"), B("+"), B("-"), <<>>}
MInit == d \in 1..NDecl /\ decl = Ds[d] /\ s = Start0 /\ args = <<>>
Next == /\ Len(args) < L /\ ~s.fail
        /\ \E a \in Pool : args' = Append(args, a) /\ s' = Eat(s, a)
        /\ UNCHANGED <<decl, d>>
Spec == MInit /\ [][Next]_vars
Sound == Accounted(s)
\* What an argument decided stays decided
Stable == [][s.fail => s'.fail]_s
PrintEdge == PrintT(ToJson([E |-> [s |-> 0, t |-> 0, e |-> [op |-> "line", d |-> d, args |-> args']]]))
=============================================================================

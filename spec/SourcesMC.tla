----------------------------- MODULE SourcesMC ------------------------------
(* Every combination of the sources that may set one key - a configuration     *)
(* file, the file it includes, an option, a positional parameter, their        *)
(* defaults and explicit overrides; each of them is replayed.                  *)
EXTENDS Sources, Json
VARIABLES line, done
KA == B("/a")
E(n, c) == [k |-> "e", v |-> B(n), c |-> c]
T(v) == [k |-> "t", v |-> B(v), c |-> << >>]
I(n) == [k |-> "i", v |-> B(n), c |-> << >>]
X(n, doc) == [n |-> B(n), kind |-> "xml", doc |-> doc, l |-> << >>]
L(n, kind, ls) == [n |-> B(n), kind |-> kind, doc |-> << >>, l |-> ls]
Main == {<<E("a", <<T("f")>>)>>, <<E("b", <<T("f")>>)>>,
         <<I("i"), E("a", <<T("f")>>)>>, <<E("a", <<T("f")>>), I("i")>>, <<E("b", <<I("i")>>)>>,
         <<E("a", <<T(" f "), E("a", <<T("h")>>), T("x  y")>>)>>}
Incl == {X("i", <<E("a", <<T("g")>>)>>), L("i", "bad", <<B("<a>")>>), X("i", <<E("c", << >>)>>)}
Files == {<<X("f", d), i>> : d \in Main, i \in Incl} \cup {<<X("f", d)>> : d \in Main} \cup {<<L("f", "bad", <<B("<a><b></a>")>>)>>}
TreeFiles == {<<L("f.tree", "lines", <<B("a:t"), B("b{"), B(":u"), B("}")>>)>>, <<L("f.tree", "lines", <<B("_INCLUDE_:i"), B("b:1")>>), L("i", "lines", <<B("a:w")>>)>>,
              <<L("f.tree", "bad", <<B("x")>>)>>, <<X("f", <<I("g.tree")>>), L("g.tree", "lines", <<B("a:t")>>)>>}
Ps == {<< >>} \cup {<<[o |-> B("p"), k |-> KA, d |-> d]>> : d \in {<< >>, B("pd")}}
Qs == {<< >>} \cup {<<[o |-> B("q"), k |-> KA, d |-> d]>> : d \in {<< >>, B("qd")}}
Over1 == {<< >>, <<B("-o/a"), B("ov")>>, <<B("--config-option/a=lo")>>, <<B("-o/a"), B("1"), B("--config-option/a=2")>>, <<B("-o/b"), B("ov")>>}
O(n, sh, v, p) == [name |-> B(n), short |-> B(sh), val |-> v, pre |-> p]
Std == <<O("help", "h", FALSE, FALSE), O("configfile", "c", TRUE, FALSE), O("dump-config", "dc", FALSE, FALSE), O("config-option", "o", TRUE, TRUE)>>
Lines == {c \o p \o q \o o : c \in {<<B("-c"), B("f")>>, <<B("--configfile=f")>>}, p \in {<< >>, <<B("--p=pv")>>}, q \in {<< >>, <<B("qv")>>}, o \in Over1}
Sources0 == \/ fs \in Files /\ line \in {<<B("-c"), B("f")>> \o p \o q \o o : p \in {<< >>, <<B("--p=pv")>>}, q \in {<< >>, <<B("qv")>>}, o \in Over1}
            \/ fs = << >> /\ line \in {c \o p \o q \o o : c \in {<< >>, <<B("--configfile=f")>>, <<B("-c")>>}, p \in {<< >>, <<B("--p=pv")>>}, q \in {<< >>, <<B("qv")>>}, o \in Over1}
            \/ fs \in TreeFiles /\ line \in {<<B("--configfile=") \o fs[1].n>> \o q \o o : q \in {<< >>, <<B("qv")>>}, o \in Over1}
MInit ==
  /\ Sources0 /\ params \in Ps /\ pos \in Qs
  /\ decl = [opts |-> Std \o [i \in 1..Len(params) |-> O("p", "", TRUE, FALSE)], req |-> << >>, opt |-> [i \in 1..Len(pos) |-> B("q")], strict |-> TRUE, extra |-> FALSE, delim |-> << >>]
  /\ s = G!Start0 /\ conf = << >> /\ ev = "init" /\ done = FALSE
MNext == /\ ~done /\ done' = TRUE /\ ev' = "go" /\ UNCHANGED <<decl, fs, params, pos, line>>
         /\ s' = G!EatAll(s, line)
         /\ conf' = IF Result(s') = "ok" THEN Config(AllSets(s')) ELSE << >>
MSpec == MInit /\ [][MNext]_<<decl, s, fs, params, pos, line, conf, ev, done>>
\* What the order of the sources means for one key
InFile == LET q == IF G!Present(s, Configfile) THEN FileSets(G!Value(s, Configfile)) ELSE << >> IN IF KA \in KeysOf(q) THEN <<LastOf(q, KA)>> ELSE << >>
Given(ps) == IF ps # << >> /\ G!Present(s, ps[1].o) THEN <<G!Value(s, ps[1].o)>> ELSE << >>
Default(ps) == IF ps # << >> /\ ps[1].d # << >> THEN <<ps[1].d>> ELSE << >>
Overrides == LET q == SelectSeq(G!PrefixList(s, B("config-option")), LAMBDA x : x[1] = KA) IN IF q = << >> THEN << >> ELSE <<q[Len(q)][2]>>
First(q) == LET S == {i \in 1..Len(q) : q[i] # << >>} IN IF S = {} THEN << >> ELSE q[MinOf(S)]
Precedence == ev = "go" /\ Result(s) = "ok" =>
  (IF KA \in DOMAIN conf THEN <<conf[KA]>> ELSE << >>) = First(<<Overrides, Given(pos), Given(params), InFile, Default(params), Default(pos)>>)
Fails == ev = "go" => (Result(s) = "fail" <=> (s.fail \/ s.want # G!None \/ (G!Present(s, Configfile) /\ (fs = << >> \/ fs[1].kind = "bad"))))
PrintEdge == PrintT(ToJson([E |-> [s |-> [fs |-> fs, ps |-> params, qs |-> pos, line |-> line], e |-> [op |-> "go"], t |-> Result(s')]]))
=============================================================================

------------------------------- MODULE TimeMC -------------------------------
\* All histories of a span and a stamp around the carry positions: k seconds plus at most two nanoseconds either way.
EXTENDS Time, TLC, Json
Ops == {<<0, 1>>, <<0, -1>>, <<1, 0>>, <<-1, 0>>, <<0, 999999999>>, <<0, -999999999>>, <<1, -999999999>>, <<0, 1999999999>>, <<-2, 999999999>>}
J(c) == [s |-> Secs(c), n |-> Nano(c)]
InR(c) == LET s == BVal(BDivE9(BAdd(c, BInt(2))))  r == BVal(BSub(c, BE9(BInt(s)))) IN s \in -1..1 /\ r \in -2..2
MInit == x = BZero /\ t = BZero /\ ev = [op |-> "new"]
Ev(r) == ev' = r
MNext ==
  \/ \E o \in Ops : Add(BInt(o[1]), o[2]) /\ Ev([op |-> "add", s |-> o[1], n |-> o[2], how |-> 0])
  \/ \E o \in Ops : Sub(BInt(o[1]), o[2]) /\ Ev([op |-> "sub", s |-> o[1], n |-> o[2], how |-> 1])
  \/ \E o \in Ops : SubFrom(BInt(o[1]), o[2]) /\ Ev([op |-> "subfrom", s |-> o[1], n |-> o[2]])
  \/ Abs /\ Ev([op |-> "abs"])
  \/ TAdd /\ Ev([op |-> "tadd", how |-> 0])
  \/ TSub /\ Ev([op |-> "tsub", how |-> 0])
  \/ \E o \in Ops : TDiff(BInt(o[1]), o[2], FALSE) /\ o[1] >= 0 /\ o[2] >= 0 /\ Ev([op |-> "tdiff", s |-> o[1], n |-> o[2], rev |-> FALSE])
InBound == InR(x') /\ InR(t')
Key == <<J(x), J(t)>>
View == <<x, t>>
PrintEdge == InBound /\ PrintT(ToJson([E |-> [s |-> [x |-> J(x), t |-> J(t)], e |-> ev', t |-> [x |-> J(x'), t |-> J(t')]]]))
MSpec == MInit /\ [][MNext]_tvars
\* The normal form exists, is unique and ordered like the counts
TypeOK == Denotes(J(x), x) /\ Denotes(J(t), t)
LexOrder == LET a == J(x)  b == J(t) IN
            (BCmp(x, t) < 0) = (BLess(a.s, b.s) \/ (a.s = b.s /\ a.n < b.n))
Laws == /\ BSub(BAdd(t, x), x) = t
        /\ BAdd(x, BNeg(x)) = BZero
=============================================================================

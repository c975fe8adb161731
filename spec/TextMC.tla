------------------------------- MODULE TextMC --------------------------------
\* The laws of the text operators for all texts up to four characters and all delimiters up to two, over three characters
\* ("a", "b" and a blank). Every text is a state, and is replayed on the code with every operation.
EXTENDS Text, Json
A == {97, 98, 32}
Texts(n) == UNION {[1..k -> A] : k \in 0..n}
VARIABLES s, d
MInit == s = <<>> /\ d \in Texts(2) \ {<<>>}
MNext == /\ Len(s) < 5 /\ UNCHANGED d
         /\ \E c \in A : s' = Append(s, c)
PrintEdge == PrintT(ToJson([E |-> [s |-> 0, e |-> [op |-> "t", s |-> s', d |-> d], t |-> 0]]))
SplitJoin == JoinWith(Split(s, d), d) = s
NoDelimLeft == \A i \in 1..Len(Split(s, d)) : FindFrom(Split(s, d)[i], d, 1) = 0
TrimOK == LET r == Trim(s) IN /\ Trim(r) = r
                              /\ \E i \in 0..Len(s) : \E j \in i..Len(s) : SubSeq(s, i + 1, j) = r /\ \A k \in 1..Len(s) : (k <= i \/ k > j) => s[k] \in Blank
PadOK == \A w \in 0..6 : Len(PadL(s, w, 97)) = (IF w > Len(s) THEN w ELSE Len(s)) /\ EndsWith(PadL(s, w, 97), s) /\ StartsWith(PadR(s, w, 97), s)
MSpec == MInit /\ [][MNext]_<<s, d>>
=============================================================================

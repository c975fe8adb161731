------------------------------- MODULE GuardsMC -------------------------------
EXTENDS Guards, Json
Key == [v |-> fv, f |-> ff, g |-> gs, r |-> runs]
NoG == gs = << >> /\ runs = << >>
NoF == fv = 0 /\ ~ff
MF == NoG /\ (FCopy \/ FFinal \/ \E v \in 0..2 : FNew(v) \/ FAssign(v) \/ \E f \in BOOLEAN : FAssignF(v, f))
MG == NoF /\ ((Len(gs) < 3 /\ GPush) \/ GEnable \/ GDisable \/ (Len(runs) < 3 /\ \E t \in BOOLEAN : GPop(t)))
MT == NoF /\ NoG /\ \E a, b \in Types : TCmp(a, b)
MSpec == fv = 0 /\ ff = FALSE /\ gs = << >> /\ runs = << >> /\ ev = [op |-> "init"] /\ [][MF \/ MG \/ MT]_<<vars, ev>>
View == vars
FinalIsConstant == [][ff /\ ev'.op # "fnew" => fv' = fv /\ ff']_<<vars, ev>>
PrintEdge == PrintT(ToJson([E |-> [s |-> Key, e |-> ev', t |-> Key']]))
=============================================================================

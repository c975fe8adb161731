------------------------------ MODULE TextTrace ------------------------------
EXTENDS Text, TraceBase
VARIABLE ev
e == Ln
Ok == CASE e.op = "new" -> TRUE
        [] e.op = "split" -> e.r = Split(e.s, e.d) /\ e.j = e.s
        [] e.op = "join" -> e.r = JoinWith(e.p, e.d)
        [] e.op = "trim" -> e.r = Trim(e.s)
        [] e.op = "pad" -> e.l = PadL(e.s, e.w, e.c) /\ e.r = PadR(e.s, e.w, e.c)
                           /\ e.ls = PadL(e.s, e.w, 32) /\ e.rs = PadR(e.s, e.w, 32)
        [] e.op = "case" -> e.lo = LowerS(e.s) /\ e.up = UpperS(e.s)
        [] e.op = "int" -> e.r = BDec(e.v) /\ e.l = PadL(BDec(e.v), e.w, e.c) /\ e.p = PadR(BDec(e.v), e.w, e.c) /\ e.back = e.v
        [] e.op = "bool" -> e.r = (IF e.v THEN B("true") ELSE B("false"))
        [] e.op = "float" -> e.d = FloatText(e.m, e.x, 15) /\ (e.f => e.r = FloatText(e.m, e.x, 6))
        [] OTHER -> FALSE
TNext == Step /\ Ok /\ ev' = e
TSpec == ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<ev, l>>
=============================================================================

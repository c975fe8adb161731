------------------------------ MODULE ConfigMC ------------------------------
(* All histories of sets and registrations over a few keys, texts, observers.   *)
EXTENDS Config, Json
CONSTANTS MaxRegs
KeyPool == {B("/a.b"), B("/a/b"), B("/a")}
Texts == {B("1"), B("no")}
Obs == {1, 2}
MInit == dir = EmptyDir /\ regs = <<>> /\ cl = [opts |-> <<>>, non |-> <<>>] /\ ev = [op |-> "init"]
MSet == \E k \in KeyPool, v \in Texts, op \in {"set", "insert"} : Set(k, v) /\ ev' = [op |-> op, k |-> k, v |-> v]
MReg == \E o \in Obs, k \in KeyPool \cup {<<>>} : Len(regs) < MaxRegs /\ Register(o, k) /\ ev' = [op |-> "register", o |-> o, k |-> k]
MUnreg == \E o \in Obs : Unregister(o) /\ ev' = [op |-> "unregister", o |-> o]
MGet == \E k \in KeyPool : UNCHANGED <<dir, regs, cl>> /\ ev' = [op |-> "get", k |-> k]
Next == MSet \/ MReg \/ MUnreg \/ MGet
Spec == MInit /\ [][Next]_<<dir, regs, cl, ev>>
View == <<dir, regs>>
\* A set of a key is a change of no other one; nobody is told who did not register
Local == [][\A k \in DOMAIN dir' : (k \in Keys /\ dir'[k] = dir[k]) \/ (ev'.op \in {"set", "insert"} /\ ev'.k = k /\ dir'[k] = ev'.v)]_<<dir, regs, ev>>
Kept == [][Keys \subseteq DOMAIN dir']_<<dir, regs, ev>>
Stale == \A o \in Obs, k \in KeyPool : Regs(o, k) >= 0 /\ Regs(o, k) <= Len(regs)
\* A text that denotes a number denotes the same one in its canonical form
Numbers == {B("0"), B("07"), B("-12"), B("+0x1F"), B(" 5"), B("-0"), B("32768"), B("-32768"), B("x"), <<>>, B("-")}
ASSUME Canonical == \A t \in {"i16", "i32", "u32"}, s \in Numbers : LET x == IntOf(t, s) IN x.ok => IntOf(t, x.v) = x
Floats == {B("1.50"), B("0.125"), B("12e2"), B("-3.5e-1"), B("100"), B("e"), B("000.5")}
ASSUME CanonicalF == \A s \in Floats : LET x == DblOf(s) IN x.ok => DblOf(x.v) = x
Key == <<{<<k, dir[k]>> : k \in Keys}, regs>>
PrintEdge == PrintT(ToJson([E |-> [s |-> Key, e |-> ev', t |-> Key']]))
=============================================================================

------------------------------ MODULE ScopedMC ------------------------------
\* All histories in which calls are made while nothing can go on by itself; printed for replay.
EXTENDS Scoped, Json
CONSTANTS N, MaxSc, MaxRaw, Fs
VARIABLES ev,
          raw              \* what each thread holds without a scope
vars == <<pend, now, mo, mc, rd, wr, so, sc, ev, raw>>
Quiet == \A t \in Threads : pend[t] = NoCall \/ Held(t)
HoldsS(t) == so = t
HoldsRw(t) == wr = t \/ rd[t] > 0
\* Waiting requests follow the order mutex, read-write lock, spin lock, and nobody waits for what it holds itself
Domain(t, f) ==
  CASE f = "sm" -> mo = t \/ (~HoldsRw(t) /\ ~HoldsS(t))
    [] f = "sr" -> ~HoldsS(t)
    [] f = "sw" -> ~HoldsS(t) /\ rd[t] = 0
    [] f \in {"ss", "spin"} -> ~HoldsS(t)
    [] f \in Tries -> Len(raw[t]) < MaxRaw
    [] f = "unm" -> "m" \in {raw[t][i] : i \in DOMAIN raw[t]}
    [] f = "unr" -> "r" \in {raw[t][i] : i \in DOMAIN raw[t]}
    [] f = "unw" -> "w" \in {raw[t][i] : i \in DOMAIN raw[t]}
    [] OTHER -> "s" \in {raw[t][i] : i \in DOMAIN raw[t]}
Idx(s, k) == CHOOSE i \in DOMAIN s : s[i] = k
Raw(t, f) == raw' = IF f \in {"unm", "unr", "unw", "unspin"}
                    THEN [raw EXCEPT ![t] = Without(@, Idx(@, CASE f = "unm" -> "m" [] f = "unr" -> "r" [] f = "unw" -> "w" [] OTHER -> "s"))]
                    ELSE IF f \in Tries /\ Free(t, Lock(f)) THEN [raw EXCEPT ![t] = Append(@, Lock(f))]
                    ELSE IF f = "spin" THEN [raw EXCEPT ![t] = Append(@, "s")] ELSE raw
Ask(t, f) ==
  /\ Quiet /\ pend[t] = NoCall /\ f \in Fs
  /\ Domain(t, f)
  /\ f \in Opens => Len(sc[t]) < MaxSc
  /\ f = "spin" => Len(raw[t]) < MaxRaw
  /\ Raw(t, f)
  /\ Call(t, f, 0) /\ UNCHANGED <<obj, now>> /\ ev' = [op |-> "do", th |-> t, f |-> f, i |-> 0]
AskI(t, f, i) ==
  /\ Quiet /\ pend[t] = NoCall /\ f \in Fs
  /\ i <= Len(sc[t])
  /\ Call(t, f, i) /\ UNCHANGED <<obj, now, raw>> /\ ev' = [op |-> "do", th |-> t, f |-> f, i |-> i]
Lin(t) == Effect(t) /\ UNCHANGED raw /\ ev' = [op |-> "lin"]
Back(t) == pend[t].ph = "done" /\ Ret(t, pend[t].res) /\ UNCHANGED <<obj, now, raw>> /\ ev' = [op |-> "ret"]
Next == \/ \E t \in 1..N, f \in Opens \union Tries \union {"spin", "unm", "unr", "unw", "unspin"} : Ask(t, f)
        \/ \E t \in 1..N, f \in {"close", "isl"}, i \in 1..MaxSc : AskI(t, f, i)
        \/ \E t \in 1..N : Lin(t)
        \/ \E t \in 1..N : Back(t)
MInit == Init(N) /\ ev = [op |-> "init"] /\ raw = [t \in 1..N |-> <<>>]
Spec == MInit /\ [][Next]_vars
View == <<pend, mo, mc, rd, wr, so, sc, raw>>
Exclusive == wr # 0 => \A t \in Threads : rd[t] = 0
NoLostWaiter == Quiet => \A t \in Threads : Waiting(t) => ~Free(t, Lock(pend[t].f))
\* A lock is held exactly by the scopes that hold it and what was acquired directly
Accounted == Quiet => mc = Cardinality({<<t, i>> \in Threads \X (1..MaxSc) : i <= Len(sc[t]) /\ sc[t][i] = [k |-> "m", ok |-> TRUE]})
                          + Cardinality({<<t, i>> \in Threads \X (1..(MaxRaw + 1)) : i <= Len(raw[t]) /\ raw[t][i] = "m"})
PrintEdge == PrintT(ToJson([E |-> [s |-> View, e |-> ev', t |-> View']]))
=============================================================================

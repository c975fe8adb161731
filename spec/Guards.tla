------------------------------- MODULE Guards -------------------------------
(* Finalizable (writable until finalized), AtScopeEnd (cleanup runs exactly    *)
(* once when enabled) and ExpectedType (run-time type tokens).                 *)
EXTENDS Integers, Sequences, TLC
VARIABLES fv, ff,      \* value and finality of the Finalizable
          gs, runs,    \* stack of guards (TRUE: enabled) and number of cleanups run, newest last
          ev
vars == <<fv, ff, gs, runs>>
FDo(a, exc, v, f) == fv' = v /\ ff' = f /\ UNCHANGED <<gs, runs>> /\ ev' = a @@ [exc |-> exc, val |-> v, final |-> f]
FNew(v) == FDo([op |-> "fnew", v |-> v], FALSE, v, FALSE)
FAssign(v) == LET a == [op |-> "fassign", v |-> v] IN IF ff THEN FDo(a, TRUE, fv, TRUE) ELSE FDo(a, FALSE, v, FALSE)
\* Assigning another Finalizable transfers the value but not its finality.
FAssignF(v, f) == LET a == [op |-> "fassignf", v |-> v, f |-> f] IN IF ff THEN FDo(a, TRUE, fv, TRUE) ELSE FDo(a, FALSE, v, FALSE)
FCopy == FDo([op |-> "fcopy"], FALSE, fv, ff)
FFinal == FDo([op |-> "ffinal"], FALSE, fv, TRUE)

GDo(a, s, r) == gs' = s /\ runs' = r /\ UNCHANGED <<fv, ff>> /\ ev' = a @@ [depth |-> Len(s), runs |-> r]
GPush == GDo([op |-> "gpush"], Append(gs, TRUE), runs)
GEnable == gs # << >> /\ GDo([op |-> "genable"], [gs EXCEPT ![Len(gs)] = TRUE], runs)
GDisable == gs # << >> /\ GDo([op |-> "gdisable"], [gs EXCEPT ![Len(gs)] = FALSE], runs)
GRun(s, r) == IF s[Len(s)] THEN Append(r, Len(s)) ELSE r
GPop(thrown) == gs # << >> /\ GDo([op |-> "gpop", thrown |-> thrown], SubSeq(gs, 1, Len(gs) - 1), GRun(gs, runs))

\* Type tokens are equal exactly when the types are the same.
Types == 0..4
TCmp(a, b) == UNCHANGED vars /\ ev' = [op |-> "tcmp", a |-> a, b |-> b, eq |-> a = b, ne |-> a # b, is |-> a = b]
=============================================================================

---------------------------- MODULE ConcTraceBase ----------------------------
(* Shared by the trace specifications of concurrent histories. The instants at  *)
(* which calls take effect are not recorded: TLC searches for them. Accepted:   *)
(* some choice of them explains every line (run with one worker).               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l + 1]
More == l < Len(Trace)
Step == More /\ l' = l + 1
ASSUME TLCSet(1, 0)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
\* Effects need to be chosen only in front of these lines (they commute with all others)
Observing == More /\ e.op \in {"ret", "tick", "quiet", "stuck", "block", "end"}
TraceAccepted ==
  LET n == TLCGet(1) IN
  IF n = Len(Trace) THEN PrintT(<<"TRACE-ACCEPTED", n>>) ELSE PrintT(<<"TRACE-REJECTED", n>>)
=============================================================================

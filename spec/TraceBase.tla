------------------------------ MODULE TraceBase ------------------------------
(* Shared by all trace specifications: the recorded trace and acceptance.     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l                       \* number of lines consumed
Ln == Trace[l + 1]
More == l < Len(Trace)
Step == More /\ l' = l + 1
(* One state per consumed line: the diameter counts the initial state too.    *)
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  IF n = Len(Trace) THEN PrintT(<<"TRACE-ACCEPTED", n>>) ELSE PrintT(<<"TRACE-REJECTED", n>>)
=============================================================================

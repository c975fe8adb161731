------------------------------ MODULE Sha2Trace ------------------------------
(* Recorded uses of one hash object (o) and a copy of it (c).                *)
EXTENDS Sha2, TraceBase
VARIABLE o, c
e == Ln
Is(x) == e.op = x
TNext ==
  /\ Step
  /\ CASE Is("new") -> o' = Fresh(e.v) /\ c' = Fresh(e.v)
       [] Is("cstr") -> ~o.done /\ (\A i \in 1..Len(e.m) : e.m[i] # 0) /\ o' = [o EXCEPT !.m = @ \o e.m] /\ c' = c
       [] Is("str") -> ~o.done /\ o' = [o EXCEPT !.m = @ \o e.m] /\ c' = c
       [] Is("buf") -> ~o.done /\ o' = [o EXCEPT !.m = @ \o e.m] /\ c' = c
       [] Is("zeros") -> ~o.done /\ o.m = <<>> /\ o.z = 0 /\ e.z \in {29, 32} /\ o' = [o EXCEPT !.z = e.z] /\ c' = c
       [] Is("fin") -> ~o.done /\ o' = [o EXCEPT !.done = TRUE] /\ c' = c
       [] Is("clear") -> o' = Fresh(o.v) /\ c' = c
       [] Is("copy") -> c' = o /\ o' = o
       [] Is("swap") -> c' = o /\ o' = c
       [] Is("peek") -> ~o.done /\ UNCHANGED <<o, c>>      \* what an unfinished object shows is not specified
       [] Is("digest") -> o.done /\ e.r = DigestOf(o) /\ UNCHANGED <<o, c>>
       [] OTHER -> FALSE
TSpec == o = Fresh("sha256") /\ c = Fresh("sha256") /\ l = 0 /\ [][TNext]_<<o, c, l>>
=============================================================================

---------------------------- MODULE DepthBuffer ----------------------------
\* A depth buffer (each cell keeps the best value offered since it was emptied) and a stamped datum with its header.
EXTENDS Integers, Sequences
VARIABLES cells, order, st, ev           \* cells: <<>> for an empty cell, <<v>> otherwise; order: "lt" or "gt"
dvars == <<cells, order, st, ev>>
NoStamp == [v |-> 0, frame |-> "", valid |-> FALSE, time |-> 0, seq |-> 0, dsin |-> 0]
New(n, o) == cells' = [i \in 1..n |-> <<>>] /\ order' = o /\ st' = NoStamp
Better(a, b) == IF order = "lt" THEN a < b ELSE a > b
Replaces(i, v) == cells[i] = <<>> \/ Better(v, cells[i][1])
Update(i, v) == cells' = (IF Replaces(i, v) THEN [cells EXCEPT ![i] = <<v>>] ELSE cells) /\ UNCHANGED <<order, st>>
Reset == cells' = [i \in DOMAIN cells |-> <<>>] /\ UNCHANGED <<order, st>>
\* Building a stamped datum from a value, a header or both; what is not given has its default
Stamp(how, v, frame, time, seq) ==
  st' = [v |-> IF how = "header" THEN 0 ELSE v,
         frame |-> IF how = "data" THEN "" ELSE frame, valid |-> how # "data",
         time |-> IF how = "data" THEN 0 ELSE time, seq |-> IF how \in {"both", "header"} THEN seq ELSE 0, dsin |-> 0] /\ UNCHANGED <<cells, order>>
SetData(v) == st' = [st EXCEPT !.v = v] /\ UNCHANGED <<cells, order>>
SetHeader(seq, dsin, frame) == st' = [st EXCEPT !.seq = seq, !.dsin = dsin, !.frame = frame] /\ UNCHANGED <<cells, order>>
=============================================================================

---------------------------- MODULE HelpersTrace ----------------------------
EXTENDS Helpers, TraceBase
e == Ln
\* The index reported for a name is one whose description equals it; otherwise the value is untouched.
EnumOk == LET S == {i \in 1..Len(e.d) : e.d[i] = e.s} IN
  /\ e.ok = (S # {})
  /\ IF S = {} THEN e.val = e.old ELSE (e.val + 1) \in S
TNext ==
  /\ Step
  /\ ev' = e
  /\ CASE e.op = "new" -> stk' = << >> /\ w' = 0 /\ h' = 0 /\ cells' = << >> /\ vec' = << >>
       [] e.op = "spush" -> SPush(e.v) [] e.op = "spop" -> SPop [] e.op = "stop" -> STop(e.v) [] e.op = "sclear" -> SClear [] e.op = "sfind" -> SFind(e.v)
       [] e.op = "anew" -> ANew(e.aw, e.ah, e.v) [] e.op = "aresize" -> AResize(e.aw, e.ah, e.v) [] e.op = "aassign" -> AAssign(e.aw, e.ah, e.v)
       [] e.op = "afill" -> AFill(e.v) [] e.op = "aput" -> APut(e.x, e.y, e.v) [] e.op = "acopy" -> ACopy [] e.op = "aswap" -> ASwap(e.aw, e.ah, e.v)
       [] e.op = "vpush" -> VPush(e.v) [] e.op = "vpop" -> VPop [] e.op = "vins" -> VIns(e.p, e.n, e.v) [] e.op = "verase" -> VErase(e.p, e.q)
       [] e.op = "vresize" -> VResize(e.n, e.v) [] e.op = "vassign" -> VAssign(e.n, e.v) [] e.op = "vclear" -> VClear
       [] e.op = "setrel" -> SetRelation(e.a, e.b)
       [] e.op = "bits" -> Bits(e.x, e.m)
       [] e.op = "enum" -> UNCHANGED vars /\ EnumOk
       [] OTHER -> FALSE
TSpec == stk = << >> /\ w = 0 /\ h = 0 /\ cells = << >> /\ vec = << >> /\ ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<vars, ev, l>>
=============================================================================

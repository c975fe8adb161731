---------------------------- MODULE LogTextTrace ----------------------------
EXTENDS LogText, TraceBase
e == Ln
Default == B("%") \o <<89>> \o B("-%m-%d %") \o <<72>> \o B(":%") \o <<77>> \o B(":%") \o <<83>>
(* "<~T.~3M> ~S(~L)~ C~(O~::D: ~E" *)
DefaultFmt == <<60, 126, 84, 46, 126, 51, 77, 62, 32, 126, 83, 40, 126, 76, 41, 126, 32, 67, 126, 40, 79, 126, 58, 58, 68, 58, 32, 126, 69>>
True == <<84, 114, 117, 101>>
False == <<70, 97, 108, 115, 101>>
Text == CASE e.k \in {"str", "cstr", "raw"} -> e.v
          [] e.k \in {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"} -> (IF e.v.neg THEN <<45>> ELSE <<>>) \o Cal!BDec(BAbs(e.v))
          [] e.k = "bool" -> IF e.v THEN True ELSE False
          [] e.k = "dbl" -> FixedText(e.neg, e.m, e.x)
          [] e.k = "ptr" -> IF e.v = 0 THEN B("(nil)") ELSE B("0x") \o Hex(e.v)
          [] e.k = "span" -> Cal!SpanText(Cal!Count(e.s, e.n))
          [] e.k = "stamp" -> Cal!FmtExt(Cal!Count(e.s, e.n), "UTC")
Formatted == CASE e.k = "s" -> e.v [] e.k = "d" -> Cal!IDec(e.n) \o B(":") \o e.v \o B("%")
Quiet == e.got = <<>>
Wrote(m) == e.got = <<Line(m)>>
TNext ==
  /\ Step
  /\ CASE e.op = "new" -> fmt' = DefaultFmt /\ tf' = Default /\ now' = [s |-> BInt(0), n |-> 0] /\ pend' = [x \in {} |-> 0]
       [] e.op = "fmt" -> fmt' = (IF e.f = <<>> THEN fmt ELSE e.f) /\ UNCHANGED <<tf, now, pend>> /\ Quiet
       [] e.op = "tf" -> tf' = e.f /\ UNCHANGED <<fmt, now, pend>> /\ Quiet
       [] e.op = "clock" -> now' = [s |-> e.s, n |-> e.n] /\ UNCHANGED <<fmt, tf, pend>> /\ Quiet
       [] e.op = "push" -> UNCHANGED tvars /\ Wrote([l |-> e.l, s |-> e.s, c |-> e.c, o |-> e.o, d |-> e.d, f |-> e.f, n |-> e.n, t |-> e.t])
       [] e.op = "note" -> Note(e.th, e.l, e.k, e.v) /\ Quiet
       [] e.op = "put" -> Write(e.th, e.l, Text) /\ Quiet
       [] e.op = "flush" -> Finish(e.th, e.l) /\ Wrote(Msg(e.th, e.l) @@ [s |-> e.s])
       [] e.op = "endl" -> Finish(e.th, e.l) /\ Wrote(Ended(Msg(e.th, e.l)) @@ [s |-> e.s])
       [] e.op = "printf" -> Finish(e.th, e.l) /\ Wrote(Written(Msg(e.th, e.l), Formatted) @@ [s |-> e.s])
       [] OTHER -> FALSE
TSpec == fmt = <<>> /\ tf = <<>> /\ now = [s |-> BInt(0), n |-> 0] /\ pend = [x \in {} |-> 0] /\ l = 0 /\ [][TNext]_<<tvars, l>>
=============================================================================

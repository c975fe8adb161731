------------------------------ MODULE TreeTrace ------------------------------
EXTENDS Tree, TraceBase
e == Ln
Dump(F) == LET ids == SelectSeq([i \in 1..Len(F) |-> i], LAMBDA i : F[i].al)
           IN [j \in 1..Len(ids) |-> <<ids[j], F[ids[j]].p, F[ids[j]].k, F[ids[j]].d, F[ids[j]].a, Changed(F, ids[j])>>]
To(F) == f' = F /\ e.f = Dump(F)
Same == To(f)
Ret(r) == To(r.f) /\ e.ret = r.h
TextOf(F, n) == IF n = 0 \/ F[n].a = None THEN << >> ELSE F[n].a[1]
TNext ==
  /\ Step /\ ev' = e
  /\ CASE e.op = "new" -> f' = << >>
       [] e.op = "make" -> To(New(f, e.p, e.d, None, FALSE)) /\ e.ret = Len(f) + 1
       [] e.op = "copy" -> To(Copy(f, e.h, e.p)) /\ e.ret = Len(f) + 1
       [] e.op = "delete" -> To(Delete(f, e.h))
       [] e.op = "unlink" -> To(Unlink(f, e.h))
       [] e.op = "unlinkSub" -> To(UnlinkSub(f, e.h))
       [] e.op = "set" -> Ret(SetPath(f, e.h, e.path, e.a))
       [] e.op = "setAttr" -> To(SetAttr(f, e.h, e.a))
       [] e.op = "setDesc" -> To(SetDesc(f, e.h, e.d))
       [] e.op = "setComment" -> LET r == Reach(f, e.h, Comment) IN To(SetAttr(r.f, r.h, e.a))
       [] e.op = "appendAttr" -> To(IF e.a = None THEN f ELSE [f EXCEPT ![e.h].a = AppendText(@, e.a[1], e.sep), ![e.h].c = TRUE])
       [] e.op = "appendDesc" -> To(IF e.a = None THEN f ELSE [f EXCEPT ![e.h].d = AppendText(@, e.a[1], e.sep), ![e.h].c = TRUE])
       [] e.op = "subTree" -> Ret(Reach(f, e.h, <<e.d[1]>>))
       [] e.op = "getSub" -> Same /\ e.ret = Kid(f, e.h, e.d[1])
       [] e.op = "get" -> LET n == Lookup(f, e.h, e.path) IN
            Same /\ e.node = n /\ e.ret = (IF n = 0 THEN e.a ELSE f[n].a)
       [] e.op = "getOr" -> LET n == Lookup(f, e.h, e.path) IN
            IF n # 0 THEN Same /\ e.ret = f[n].a ELSE To(SetPath(f, e.h, e.path, e.a).f) /\ e.ret = e.a
       [] e.op = "isAttr" -> LET n == Lookup(f, e.h, e.path) IN Same /\ e.ret = (n # 0 /\ (e.a = None \/ f[n].a = e.a))
       [] e.op = "search" -> Same /\ e.ret = Search(f, e.h, e.d[1], e.a)
       [] e.op = "add" -> e.ret = e.t /\ To(Add(f, e.h, e.t, 0))
       [] e.op = "addNext" -> IF f[e.h].p = 0 THEN e.ret = 0 /\ Same ELSE e.ret = e.t /\ To(Add(f, f[e.h].p, e.t, e.h))
       [] e.op = "addNew" -> Ret(Reach(f, e.h, <<Fresh(f, e.h, << >>)>>))
       [] e.op = "fresh" -> Same /\ e.ret = Fresh(f, e.h, e.d[1])
       [] e.op = "revert" -> To(RevertAll(f, e.h))
       [] e.op = "unmark" -> To(Unmark(f, e.h))
       [] e.op = "ask" -> Same
            /\ e.count = Count(f, e.h) /\ e.root = Root(f, e.h)
            /\ e.comment = CommentText(f, e.h) /\ e.hasComment = (CommentNode(f, e.h) # 0) /\ e.cnode = CommentNode(f, e.h)
            /\ e.hasMulti = Multi(CommentText(f, e.h))
            /\ e.isComment = (f[e.h].d = Comment) /\ e.isMulti = (f[e.h].d = Comment /\ f[e.h].a # None /\ Multi(f[e.h].a[1]))
            /\ e.fpath = TextOf(f, Special(f, Root(f, e.h), PathName)) /\ e.fname = TextOf(f, Special(f, Root(f, e.h), FileName))
       [] OTHER -> FALSE
TSpec == f = << >> /\ ev = [op |-> "init"] /\ l = 0 /\ [][TNext]_<<f, ev, l>>
=============================================================================

-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* icl_core::config::AttributeTree: a forest of nodes.  Nodes are numbered *)
(* in the order of their creation; f[h] is the node number h:              *)
(*   al  whether it exists,  p  its parent or 0,  k  its children in order,*)
(*   d   its description,  a  its attribute (each << >> for none or        *)
(*   <<text>>),  c  whether it was changed itself since the last unmark.   *)
(* Operations are functions of the forest; look-ups leave it as it is.     *)
(***************************************************************************)
EXTENDS Bytes
VARIABLES f, ev
None == << >>
Node(p, d, a, c) == [al |-> TRUE, p |-> p, k |-> << >>, d |-> d, a |-> a, c |-> c]
Dead == [al |-> FALSE, p |-> 0, k |-> << >>, d |-> None, a |-> None, c |-> FALSE]
Alive(F) == {h \in 1..Len(F) : F[h].al}
IsNode(F, h) == h \in 1..Len(F) /\ F[h].al
Comment == <<B("_COMMENT_")>>
PathName == B("_ATTRIBUTE_TREE_FILE_PATH_")
FileName == B("_ATTRIBUTE_TREE_FILE_NAME_")
(* ---------------------------------------------------------- structure     *)
RECURSIVE Pre(_, _), PreAll(_, _)
Pre(F, h) == <<h>> \o PreAll(F, F[h].k)              \* the nodes of a tree, each before its children
PreAll(F, ks) == IF ks = << >> THEN << >> ELSE Pre(F, Head(ks)) \o PreAll(F, Tail(ks))
RECURSIVE Up(_, _)
Up(F, h) == IF F[h].p = 0 THEN <<h>> ELSE <<h>> \o Up(F, F[h].p)
Root(F, h) == LET u == Up(F, h) IN u[Len(u)]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Kid(F, h, d) == LET S == {i \in 1..Len(F[h].k) : F[F[h].k[i]].d = <<d>>} IN IF S = {} THEN 0 ELSE F[h].k[MinOf(S)]
Changed(F, h) == \E i \in 1..Len(Pre(F, h)) : F[Pre(F, h)[i]].c
Count(F, h) == LET s == Pre(F, h) IN Cardinality({i \in 1..Len(s) : F[s[i]].a # None})
(* A new node becomes the first child of its parent.                         *)
Hang(F, p, h) == IF p = 0 THEN F ELSE [F EXCEPT ![p].k = <<h>> \o @, ![p].c = TRUE]
New(F, p, d, a, c) == Hang(Append(F, Node(p, d, a, c)), p, Len(F) + 1)
(* ---------------------------------------------------------- editing       *)
SetAttr(F, h, a) == IF F[h].a = a THEN F ELSE [F EXCEPT ![h].a = a, ![h].c = TRUE]
SetDesc(F, h, d) == [F EXCEPT ![h].d = d, ![h].c = TRUE]
(* Walks down a path, creating what is missing; the node is the last handle. *)
RECURSIVE Reach(_, _, _)
Reach(F, h, path) == IF path = << >> THEN [f |-> F, h |-> h]
  ELSE IF Kid(F, h, path[1]) # 0 THEN Reach(F, Kid(F, h, path[1]), Tail(path))
  ELSE Reach(New(F, h, <<path[1]>>, None, FALSE), Len(F) + 1, Tail(path))
SetPath(F, h, path, a) == LET r == Reach(F, h, path) IN IF a = None THEN r ELSE [f |-> SetAttr(r.f, r.h, a), h |-> r.h]
AppendText(old, new, sep) == IF old = None THEN <<new>> ELSE <<old[1] \o sep \o new>>
Unlink(F, h) == LET p == F[h].p IN IF p = 0 THEN F ELSE [F EXCEPT ![p].k = Without(@, h), ![p].c = TRUE, ![h].p = 0]
UnlinkSub(F, h) == IF F[h].k = << >> THEN F
  ELSE [i \in 1..Len(F) |-> IF i = h THEN [F[i] EXCEPT !.k = << >>, !.c = TRUE] ELSE IF F[i].al /\ F[i].p = h THEN [F[i] EXCEPT !.p = 0] ELSE F[i]]
Delete(F, h) == LET gone == Range(Pre(F, h)) G == Unlink(F, h) IN [i \in 1..Len(G) |-> IF i \in gone THEN Dead ELSE G[i]]
(* The copy of the tree h, hung below p: numbered in the order of Pre.       *)
Copy(F, h, p) ==
  LET s == Pre(F, h) n == Len(F)
      To(x) == n + CHOOSE i \in 1..Len(s) : s[i] = x
      G == F \o [i \in 1..Len(s) |-> [al |-> TRUE, p |-> IF i = 1 THEN p ELSE To(F[s[i]].p), k |-> [j \in 1..Len(F[s[i]].k) |-> To(F[s[i]].k[j])],
                                      d |-> F[s[i]].d, a |-> F[s[i]].a, c |-> FALSE]]
  IN Hang(G, p, n + 1)
RECURSIVE Revert(_, _)
Revert(F, s) == IF s = << >> THEN F ELSE Revert([F EXCEPT ![Head(s)].k = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]], Tail(s))
RevertAll(F, h) == Revert(F, Pre(F, h))
Unmark(F, h) == LET s == Range(Pre(F, h)) IN [i \in 1..Len(F) |-> IF i \in s THEN [F[i] EXCEPT !.c = FALSE] ELSE F[i]]
(* An unused description below h: the number at the end of the given one is  *)
(* counted up (or 1 appended) until no child is called that.                 *)
Stem(d) == SubSeq(d, 1, LastNotIn(d, 48..57))
Num(d) == SubSeq(d, LastNotIn(d, 48..57) + 1, Len(d))
RECURSIVE Count1(_, _, _, _)
Count1(F, h, stem, n) == IF Kid(F, h, stem \o Dec(n)) = 0 THEN stem \o Dec(n) ELSE Count1(F, h, stem, n + 1)
Fresh(F, h, d) == IF Num(d) = << >> THEN Count1(F, h, d, 1) ELSE Count1(F, h, Stem(d), Val(Num(d)) + 1)
(* Putting the tree t below h: first, or directly after the child after.     *)
Add(F, h, t, after) ==
  LET G == Unlink(F, t)
      d == G[t].d
      H == IF d # None /\ Kid(G, h, d[1]) # 0 THEN [G EXCEPT ![t].d = <<Fresh(G, h, d[1])>>] ELSE G
      ks == H[h].k
      i == IF after = 0 THEN 0 ELSE CHOOSE j \in 1..Len(ks) : ks[j] = after
  IN [H EXCEPT ![h].k = SubSeq(ks, 1, i) \o <<t>> \o SubSeq(ks, i + 1, Len(ks)), ![h].c = TRUE, ![t].p = h]
(* ---------------------------------------------------------- look-ups      *)
RECURSIVE Walk(_, _, _)
Walk(F, h, path) == IF path = << >> \/ h = 0 THEN h ELSE Walk(F, Kid(F, h, path[1]), Tail(path))
(* Where and in what a file was loaded is asked of the nearest node that     *)
(* knows, from the node up to the root.                                      *)
Special(F, h, d) == LET u == Up(F, h) S == {i \in 1..Len(u) : Kid(F, u[i], d) # 0} IN IF S = {} THEN 0 ELSE Kid(F, u[MinOf(S)], d)
Lookup(F, h, path) == IF path = << >> THEN 0 ELSE           \* no node is called ""
  LET sp == IF path[Len(path)] \in {PathName, FileName} THEN Special(F, h, path[Len(path)]) ELSE 0
      w == Walk(F, h, path)
  IN IF sp # 0 /\ F[sp].a # None THEN sp ELSE IF w # 0 /\ F[w].a # None THEN w ELSE 0
Search(F, h, d, a) == LET s == Pre(F, h)
                          S == {i \in 1..Len(s) : F[s[i]].d = <<d>> /\ (a = None \/ F[s[i]].a = a)}
                      IN IF S = {} THEN 0 ELSE s[MinOf(S)]
CommentNode(F, h) == LET S == {i \in 1..Len(F[h].k) : F[F[h].k[i]].d = Comment /\ F[F[h].k[i]].a # None} IN IF S = {} THEN 0 ELSE F[h].k[MinOf(S)]
CommentText(F, h) == LET n == CommentNode(F, h) IN IF n = 0 THEN << >> ELSE F[n].a[1]
Multi(t) == \E i \in 1..Len(t) : t[i] = 10
(* ---------------------------------------------------------- well-formed   *)
WellFormed(F) ==
  \A h \in Alive(F) :
    /\ \A i \in 1..Len(F[h].k) : F[h].k[i] \in Alive(F) /\ F[F[h].k[i]].p = h
    /\ \A i, j \in 1..Len(F[h].k) : i # j => F[h].k[i] # F[h].k[j]
    /\ F[h].p # 0 => F[h].p \in Alive(F) /\ \E i \in 1..Len(F[F[h].p].k) : F[F[h].p].k[i] = h
=============================================================================

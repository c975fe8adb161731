------------------------------ MODULE TreeFile ------------------------------
(***************************************************************************)
(* The file format of icl_core::config::AttributeTree.  A tree is          *)
(* [d |-> description, a |-> attribute, k |-> children], description and   *)
(* attribute being << >> for none or <<text>>.  Lines gives the lines of   *)
(* the saved tree, Load the tree which loading lines into a tree gives.    *)
(***************************************************************************)
EXTENDS Bytes
VARIABLES t, ev
None == << >>
NL == 10
Tree(d, a, k) == [d |-> d, a |-> a, k |-> k]
COMMENT == B("_COMMENT_")
COMMENTEND == B("}_COMMENT_")
INCLUDE == B("_INCLUDE_")
PathName == B("_ATTRIBUTE_TREE_FILE_PATH_")
FileName == B("_ATTRIBUTE_TREE_FILE_NAME_")
Is(x, name) == x.d = <<name>>
Virtual(x) == Is(x, PathName) \/ Is(x, FileName)
Multi(x) == Is(x, COMMENT) /\ x.a # None /\ \E i \in 1..Len(x.a[1]) : x.a[1][i] = NL
RECURSIVE Entries(_), SumEntries(_)
SumEntries(ks) == IF ks = << >> THEN 0 ELSE Entries(Head(ks)) + SumEntries(Tail(ks))
Entries(x) == (IF x.a = None THEN 0 ELSE 1) + SumEntries(x.k)
(* Multi line comments and includes are only understood on lines of their    *)
(* own, so every node above one is written as a section.                     *)
RECURSIVE Needs(_)
Needs(x) == \E i \in 1..Len(x.k) : Multi(x.k[i]) \/ Is(x.k[i], INCLUDE) \/ Needs(x.k[i])
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET i == FirstIn(s, {c}, 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitAt(SubSeq(s, i + 1, Len(s)), c)
RECURSIVE Lines(_, _, _), AllLines(_, _, _)
AllLines(ks, depth, up) == IF ks = << >> THEN << >> ELSE Lines(Head(ks), depth, up) \o AllLines(Tail(ks), depth, up)
Lines(x, depth, up) ==
  LET d == IF x.d = None THEN << >> ELSE x.d[1] IN
  IF Virtual(x) THEN << >>
  ELSE IF Multi(x) THEN <<up \o COMMENT \o B("{")>> \o SplitAt(x.a[1], NL) \o <<up \o COMMENTEND>>
  ELSE IF ~Is(x, COMMENT) /\ ~Is(x, INCLUDE) /\ (Entries(x) >= depth \/ Needs(x))
       THEN <<up \o d \o B("{")>> \o (IF x.a = None THEN << >> ELSE <<up \o B(":") \o x.a[1]>>)
            \o AllLines(x.k, depth, up \o B(" ")) \o <<up \o B("}") \o d>>
       ELSE LET p == up \o (IF up = << >> \/ up[Len(up)] = 32 THEN << >> ELSE B(".")) \o d IN
            (IF x.a = None THEN << >> ELSE <<p \o B(":") \o x.a[1]>>) \o AllLines(x.k, depth, p)
(* ---------------------------------------------------------- loading       *)
Space == (9..13) \cup {32}
TrimL(s) == LET i == FirstNotIn(s, Space, 1) IN IF i = 0 THEN << >> ELSE SubSeq(s, i, Len(s))
TrimR(s) == SubSeq(s, 1, LastNotIn(s, Space))
NoCR(s) == IF s # << >> /\ s[Len(s)] = 13 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
KidIx(x, n) == LET S == {i \in 1..Len(x.k) : Is(x.k[i], n)} IN IF S = {} THEN 0 ELSE MinOf(S)
Front(x, n) == [x EXCEPT !.k = <<n>> \o @]
NodePath(s) == IF s = << >> THEN << >> ELSE SplitAt(s, 46)
RECURSIVE SetT(_, _, _)
SetT(x, path, a) ==
  IF path = << >> THEN [x EXCEPT !.a = <<a>>]
  ELSE LET i == KidIx(x, path[1]) IN
       IF i # 0 THEN [x EXCEPT !.k = [j \in 1..Len(@) |-> IF j = i THEN SetT(@[i], Tail(path), a) ELSE @[j]]]
       ELSE Front(x, SetT(Tree(<<path[1]>>, None, << >>), Tail(path), a))
(* The node being filled and the nodes above it.                             *)
RECURSIVE Descend(_, _, _)
Descend(cur, stack, path) ==
  IF path = << >> THEN [cur |-> cur, stack |-> stack]
  ELSE LET i == KidIx(cur, path[1]) IN
       IF i # 0 THEN Descend(cur.k[i], Append(stack, [x |-> cur, i |-> i]), Tail(path))
       ELSE LET n == Tree(<<path[1]>>, None, << >>) IN Descend(n, Append(stack, [x |-> Front(cur, n), i |-> 1]), Tail(path))
Put(x, i, y) == [x EXCEPT !.k = [j \in 1..Len(@) |-> IF j = i THEN y ELSE @[j]]]
RECURSIVE Close(_, _)
Close(cur, stack) == IF stack = << >> THEN cur ELSE LET s == stack[Len(stack)] IN Close(Put(s.x, s.i, cur), SubSeq(stack, 1, Len(stack) - 1))
(* files: the files there are, [n |-> path, l |-> lines]; relative names are *)
(* looked up next to the including file, ${VFDIR} is the top.                *)
TOP == B("${VFDIR}/")
DirOf(n) == SubSeq(n, 1, LastIn(n, {47}))
Slashes(s) == [i \in 1..Len(s) |-> IF s[i] = 92 THEN 47 ELSE s[i]]
Target(from, n) == LET s == Slashes(n) IN IF StartsWith(s, TOP) THEN SubSeq(s, Len(TOP) + 1, Len(s)) ELSE DirOf(from) \o s
FileIx(files, n) == LET S == {i \in 1..Len(files) : files[i].n = n} IN IF S = {} THEN 0 ELSE MinOf(S)
(* The lines of a multi line comment up to its end: [text, next line or 0].  *)
RECURSIVE CommentBody(_, _)
CommentBody(ls, i) ==
  IF i > Len(ls) THEN [text |-> << >>, next |-> 0]
  ELSE LET s == TrimR(TrimL(NoCR(ls[i]))) IN
       IF FindFrom(s, COMMENTEND, 1) # 0 THEN [text |-> << >>, next |-> i + 1]
       ELSE LET r == CommentBody(ls, i + 1) IN [text |-> <<s>> \o r.text, next |-> r.next]
RECURSIVE Parse(_, _, _, _, _, _, _)
Parse(ls, i, cur, stack, from, files, o) ==
  IF i > Len(ls) THEN [t |-> Close(cur, stack), ok |-> TRUE]
  ELSE
  LET s == TrimL(NoCR(ls[i]))
      c == FirstIn(s, {58}, 1)
      b == FirstIn(s, {123}, 1)
      Go(x) == Parse(ls, i + 1, x, stack, from, files, o)
  IN IF s # << >> /\ s[1] = 35 THEN Go(cur)
     ELSE IF c # 0 THEN
       LET n == SubSeq(s, 1, c - 1) v == SubSeq(s, c + 1, Len(s)) IN
       IF n = << >> THEN Go([cur EXCEPT !.a = <<v>>])
       ELSE IF n = INCLUDE THEN
            (IF ~o.proc THEN Go(Front(cur, Tree(<<INCLUDE>>, <<v>>, << >>)))
             ELSE LET g == Target(from, v) k == FileIx(files, g) IN
                  IF k = 0 THEN Go(cur) ELSE Go(Parse(files[k].l, 1, cur, << >>, g, files, o).t))
       ELSE IF FindFrom(n, COMMENT, 1) # 0 /\ ~o.comm THEN Go(cur)
       ELSE Go(SetT(cur, NodePath(n), v))
     ELSE IF b # 0 THEN
       LET n == SubSeq(s, 1, b - 1) IN
       IF n = COMMENT THEN
         LET r == CommentBody(ls, i + 1)
             x == IF o.comm THEN Front(cur, Tree(<<COMMENT>>, IF r.text = << >> THEN None ELSE <<JoinWith(r.text, <<NL>>)>>, << >>)) ELSE cur
         IN IF r.next = 0 THEN [t |-> Close(x, stack), ok |-> FALSE] ELSE Parse(ls, r.next, x, stack, from, files, o)
       ELSE LET r == Descend(cur, stack, NodePath(n)) IN Parse(ls, i + 1, r.cur, r.stack, from, files, o)
     ELSE IF FirstIn(s, {125}, 1) # 0 THEN
       (IF stack = << >> THEN [t |-> cur, ok |-> TRUE]
        ELSE LET u == stack[Len(stack)] IN Parse(ls, i + 1, Put(u.x, u.i, cur), SubSeq(stack, 1, Len(stack) - 1), from, files, o))
     ELSE IF s = << >> THEN Go(cur)
     ELSE [t |-> Close(cur, stack), ok |-> FALSE]
RECURSIVE Revert(_)
Revert(x) == [x EXCEPT !.k = [i \in 1..Len(@) |-> Revert(@[Len(@) + 1 - i])]]
(* The file which was loaded is noted in the root, once.                     *)
Noted(x, dir, n) ==
  IF \E i \in 1..Len(x.k) : Is(x.k[i], PathName) THEN x
  ELSE [x EXCEPT !.k = <<Tree(<<FileName>>, <<SubSeq(n, Len(DirOf(n)) + 1, Len(n))>>, << >>), Tree(<<PathName>>, <<dir \o DirOf(n)>>, << >>)>> \o @]
Load(x, dir, n, files, o) ==
  LET y == Noted(x, dir, n) i == FileIx(files, n) IN
  IF i = 0 THEN [t |-> y, ok |-> FALSE]
  ELSE LET r == Parse(files[i].l, 1, y, << >>, n, files, o) IN
       IF r.ok /\ o.keep THEN [t |-> Revert(r.t), ok |-> TRUE] ELSE r
(* What remains of a tree which is saved and loaded again: everything, but   *)
(* nodes without any entry only if everything is written as sections.        *)
RECURSIVE Kept(_, _)
Kept(x, depth) == [x EXCEPT !.k = LET ks == SelectSeq(@, LAMBDA y : ~Virtual(y) /\ ((depth <= 0 /\ ~Is(y, COMMENT)) \/ Entries(y) > 0 \/ Needs(y)))
                                  IN [i \in 1..Len(ks) |-> Kept(ks[i], depth)]]
Again == [proc |-> FALSE, comm |-> TRUE, keep |-> TRUE]
(* Loading the saved tree into an empty, nameless tree.                      *)
Reloaded(x, depth, dir, n) ==
  LET note == <<Tree(<<PathName>>, <<dir \o DirOf(n)>>, << >>), Tree(<<FileName>>, <<SubSeq(n, Len(DirOf(n)) + 1, Len(n))>>, << >>)>>
      y == Kept(x, depth)
  IN IF x.d = None THEN Tree(None, y.a, note \o y.k)
     ELSE Tree(None, None, note \o (IF depth > 0 /\ Entries(y) = 0 /\ ~Needs(y) THEN << >> ELSE <<y>>))
=============================================================================

------------------------------ MODULE FilePath ------------------------------
(* File paths: normalised, joined with the current directory, split into path,*)
(* name and extension; and the replacement of environment references.         *)
EXTENDS Bytes
VARIABLES pwd, env, ev     \* current directory; environment: <<name, value>>s, each name once
SL == 47 BS == 92 DOT == 46 COLON == 58
Dot == <<DOT>> Up == <<DOT, DOT>>
Exchange(s) == [i \in 1..Len(s) |-> IF s[i] = BS THEN SL ELSE s[i]]
\* The parts between the separators (at least one).
RECURSIVE Parts(_)
Parts(s) == LET i == FirstIn(s, {SL}, 1) IN
  IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Parts(SubSeq(s, i + 1, Len(s)))
Whole(ps) == JoinWith(ps, <<SL>>)
\* A directory which "something/../" may remove.
Named(p) == p # << >> /\ p # Up /\ p[Len(p)] # COLON
(* cut: something was removed from the front, so empty parts there do not make *)
(* the path an absolute one.                                                   *)
RECURSIVE Walk(_, _, _)
Walk(done, ps, cut) ==
  IF Len(ps) = 1 THEN Append(done, ps[1])
  ELSE IF ps[1] = Dot \/ (ps[1] = << >> /\ done = << >> /\ cut) THEN Walk(done, Tail(ps), cut \/ done = << >>)
  ELSE IF ps[1] = Up /\ done # << >> /\ Named(done[Len(done)]) THEN Walk(SubSeq(done, 1, Len(done) - 1), Tail(ps), Len(done) = 1)
  ELSE Walk(Append(done, ps[1]), Tail(ps), cut)
Norm(s) == Whole(Walk(<< >>, Parts(Exchange(s)), FALSE))
Rel(s) == s = << >> \/ s[1] # SL
Current(d) == LET n == Norm(d) IN IF n # << >> /\ n[Len(n)] = SL THEN n ELSE Append(n, SL)
Abs(d, s) == IF Rel(s) THEN Norm(Current(d) \o s) ELSE Norm(s)
File(d, s) ==
  LET f == Norm(Abs(d, Exchange(s))) c == LastIn(f, {SL}) x == LastIn(f, {DOT}) IN
  [abs |-> f, path |-> SubSeq(f, 1, c), name |-> SubSeq(f, c + 1, Len(f)), ext |-> IF x > c THEN SubSeq(f, x, Len(f)) ELSE << >>]
\* What a path denotes, from the root or from an unknown directory: how far
\* above it, and the names below that.
RECURSIVE Denote(_, _, _, _)
Denote(rooted, up, names, ps) ==
  IF ps = << >> THEN <<rooted, up, names>>
  ELSE IF ps[1] \in {<< >>, Dot} THEN Denote(rooted, up, names, Tail(ps))
  ELSE IF ps[1] # Up THEN Denote(rooted, up, Append(names, ps[1]), Tail(ps))
  ELSE IF names # << >> THEN Denote(rooted, up, SubSeq(names, 1, Len(names) - 1), Tail(ps))
  ELSE Denote(rooted, IF rooted THEN 0 ELSE up + 1, names, Tail(ps))
Meaning(s) == Denote(~Rel(Exchange(s)), 0, << >>, Parts(Exchange(s)))
\* -------------------------------------------------------------- environment
Value(en, k) == LET S == {i \in 1..Len(en) : en[i][1] = k} IN IF S = {} THEN k ELSE en[CHOOSE i \in S : TRUE][2]
Ref == <<36, 123>> CLOSE == 125
(* References from position i on.  A value may contain references itself,     *)
(* except to the variables it is being put in for: open holds those with the  *)
(* number of characters that follow their value.  Without a closing brace     *)
(* nothing is replaced at all.                                                *)
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(en, s, i, open) ==
  LET a == FindFrom(s, Ref, i) IN
  IF a = 0 THEN <<s>>
  ELSE LET o == SelectSeq(open, LAMBDA x : Len(s) - (a - 1) > x[2])
           b == FirstIn(s, {CLOSE}, a + 2) IN
       IF b = 0 THEN << >>
       ELSE LET k == SubSeq(s, a + 2, b - 1) rest == SubSeq(s, b + 1, Len(s)) IN
            IF \E j \in 1..Len(o) : o[j][1] = k THEN ReplaceFrom(en, s, b + 1, o)
            ELSE ReplaceFrom(en, SubSeq(s, 1, a - 1) \o Value(en, k) \o rest, a, Append(o, <<k, Len(rest)>>))
Replaced(en, s) == LET r == ReplaceFrom(en, s, 1, << >>) IN IF r = << >> THEN s ELSE r[1]
SetEnv(en, k, v) == SelectSeq(en, LAMBDA x : x[1] # k) \o <<<<k, v>>>>
=============================================================================

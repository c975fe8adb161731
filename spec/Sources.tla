------------------------------ MODULE Sources -------------------------------
(* What the configuration holds after initialisation: the settings made by the *)
(* configuration file (and the files it includes), then by options, then by    *)
(* positional parameters, then by explicit overrides; later ones win, defaults *)
(* fill in what is still missing when it is their turn.                        *)
EXTENDS Bytes
VARIABLES decl, s,   \* the command line, see Getopt
          fs,        \* the files: [n |-> name, kind |-> "xml"/"lines"/"bad", doc |-> items, l |-> lines]
          params,    \* [o |-> option, k |-> key, d |-> default]: options and positional parameters
          pos,
          conf,      \* the configuration, a function
          ev
G == INSTANCE Getopt
TF == INSTANCE TreeFile WITH t <- conf, ev <- ev
FP == INSTANCE FilePath WITH pwd <- << >>, env <- << >>, ev <- ev
SL == 47
Blank == {9, 10, 13, 32}
(* Blanks around a text are dropped, blanks within it become one.             *)
RECURSIVE Squeeze(_)
Squeeze(x) == IF x = << >> THEN << >>
  ELSE IF Head(x) \notin Blank THEN <<Head(x)>> \o Squeeze(Tail(x))
  ELSE LET i == FirstNotIn(x, Blank, 1) IN IF i = 0 THEN << >> ELSE <<32>> \o Squeeze(SubSeq(x, i, Len(x)))
Condensed(x) == LET i == FirstNotIn(x, Blank, 1) IN IF i = 0 THEN << >> ELSE Squeeze(SubSeq(x, i, Len(x)))
FileIx(n) == LET S == {i \in 1..Len(fs) : fs[i].n = FP!Norm(n)} IN IF S = {} THEN 0 ELSE MinOf(S)
DirOf(n) == SubSeq(n, 1, LastIn(n, {SL}))
IsTree(n) == EndsWith(n, B(".tree")) \/ EndsWith(n, B(".AttributeTree"))
Bare == [d |-> << >>, a |-> << >>, k |-> << >>]
RECURSIVE TreeSets(_, _), AllTreeSets(_, _)
AllTreeSets(ks, prefix) == IF ks = << >> THEN << >>
  ELSE TreeSets(Head(ks), prefix \o <<SL>> \o Head(ks).d[1]) \o AllTreeSets(Tail(ks), prefix)
TreeSets(x, name) == (IF x.a = << >> THEN << >> ELSE <<<<name, x.a[1]>>>>) \o AllTreeSets(x.k, name)
TreeOf(n) == TF!Load(Bare, << >>, n, fs, [proc |-> TRUE, comm |-> FALSE, keep |-> FALSE])
Readable(n) == LET i == FileIx(n) IN
  i # 0 /\ (IF IsTree(n) THEN fs[i].kind = "lines" /\ TreeOf(fs[i].n).ok ELSE fs[i].kind = "xml")
(* The settings of a file, in order; nothing if it cannot be read.            *)
RECURSIVE FileSets(_), ItemSets(_, _, _)
FileSets(n) ==
  IF ~Readable(n) THEN << >>
  ELSE LET i == FileIx(n) IN IF IsTree(n) THEN TreeSets(TreeOf(fs[i].n).t, << >>) ELSE ItemSets(fs[i].doc, << >>, fs[i].n)
ItemSets(items, prefix, from) ==
  IF items = << >> THEN << >>
  ELSE LET x == Head(items) IN
       (CASE x.k = "t" -> IF Condensed(x.v) = << >> THEN << >> ELSE <<<<prefix, Condensed(x.v)>>>>
          [] x.k = "e" -> ItemSets(x.c, prefix \o <<SL>> \o x.v, from)
          [] x.k = "i" -> IF Condensed(x.v) = << >> THEN << >> ELSE FileSets(DirOf(from) \o Condensed(x.v))
          [] OTHER -> << >>) \o ItemSets(Tail(items), prefix, from)
KeysOf(sets) == {sets[i][1] : i \in 1..Len(sets)}
LastOf(sets, k) == sets[MaxOf({i \in 1..Len(sets) : sets[i][1] = k})][2]
(* Options, or positional parameters, with the keys they are kept in.         *)
RECURSIVE ParamSets(_, _, _)
ParamSets(r, ps, sets) ==
  IF ps = << >> THEN sets
  ELSE LET p == Head(ps) IN
       ParamSets(r, Tail(ps),
         IF p.k = << >> THEN sets
         ELSE IF G!Present(r, p.o) THEN Append(sets, <<p.k, G!Value(r, p.o)>>)
         ELSE IF p.k \notin KeysOf(sets) /\ p.d # << >> THEN Append(sets, <<p.k, p.d>>)
         ELSE sets)
Configfile == B("configfile")
ConfigfileKey == B("/configfile")
Config(sets) == [k \in KeysOf(sets) |-> LastOf(sets, k)]
\* r: what the command line was parsed to
FromFile(r) == IF ~G!Present(r, Configfile) THEN << >>
               ELSE LET n == G!Value(r, Configfile) IN FileSets(n) \o <<<<ConfigfileKey, n>>>>
AllSets(r) ==
  LET file == FromFile(r)
      opts == ParamSets(r, <<[o |-> Configfile, k |-> ConfigfileKey, d |-> << >>]>> \o params, file)
  IN ParamSets(r, pos, opts) \o G!PrefixList(r, B("config-option"))
Result(r) == IF G!Outcome(r) # "ok" THEN G!Outcome(r)
             ELSE IF G!Present(r, Configfile) /\ ~Readable(G!Value(r, Configfile)) THEN "fail" ELSE "ok"
\* The location noted by attribute trees is not part of the file's content.
Own(k) == k # B("/_ATTRIBUTE_TREE_FILE_PATH_") /\ k # B("/_ATTRIBUTE_TREE_FILE_NAME_")
Over(f, sets) == [k \in (DOMAIN f) \cup KeysOf(sets) |-> IF k \in KeysOf(sets) THEN LastOf(sets, k) ELSE f[k]]
=============================================================================

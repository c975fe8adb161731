----------------------------- MODULE FilePathMC -----------------------------
(* Every short path and every short text with references; each of them is     *)
(* replayed into the implementation.                                          *)
EXTENDS FilePath, Json
CONSTANTS MaxLen, MaxRef
VARIABLE s
Chars == {DOT, SL, 97, BS}
Dirs == {B("/"), B("/x"), B("/x/../y/")}
Pieces == {B("${"), B("}"), B("A"), B("$"), B("B")}
VA == {B(""), B("x"), B("${B}"), B("${A}"), B("${B")}
VB == {B("y"), B("${A}"), B("B}")}
Envs == {<<<<B("A"), a>>, <<B("B"), b>>>> : a \in VA, b \in VB} \cup {<< >>}
MInit == s = << >> /\ ((ev = "path" /\ pwd \in Dirs /\ env = << >>) \/ (ev = "text" /\ pwd = <<SL>> /\ env \in Envs))
MNext == UNCHANGED <<pwd, env, ev>> /\
  \/ ev = "path" /\ Len(s) < MaxLen /\ \E c \in Chars : s' = Append(s, c)
  \/ ev = "text" /\ Len(s) < MaxRef /\ \E p \in Pieces : s' = s \o p
MSpec == MInit /\ [][MNext]_<<pwd, env, ev, s>>
\* Normalising changes the text, not what it denotes, and leaves nothing to do.
NormGood == ev = "path" => LET n == Norm(s) IN
  /\ Norm(n) = n /\ Meaning(n) = Meaning(s) /\ Rel(n) = Rel(Exchange(s))
  /\ ~StartsWith(n, B("./")) /\ FindFrom(n, B("/./"), 1) = 0
  /\ FindFrom(n, B("a/../"), 1) = 0
FileGood == ev = "path" => LET f == File(pwd, s) IN
  /\ f.path \o f.name = f.abs /\ LastIn(f.name, {SL}) = 0 /\ f.path # << >> /\ f.abs[1] = SL /\ f.path[Len(f.path)] = SL
  /\ EndsWith(f.name, f.ext) /\ LastIn(f.ext, {DOT}) <= 1 /\ (f.ext = << >> => LastIn(f.name, {DOT}) = 0)
  /\ Meaning(f.abs) = (IF Rel(Exchange(s)) THEN Meaning(Current(pwd) \o s) ELSE Meaning(s))
NoRef == ev = "text" /\ FindFrom(s, Ref, 1) = 0 => Replaced(env, s) = s
\* Without references in values nothing is left to replace.
Verbatim == ev = "text" /\ (\A i \in 1..Len(env) : LastIn(env[i][2], {36, CLOSE}) = 0) /\ FirstIn(s, {36}, 1) = FindFrom(s, Ref, 1)
  => LET a == FindFrom(s, Ref, 1) b == IF a = 0 THEN 0 ELSE FirstIn(s, {CLOSE}, a + 2) IN
     a # 0 /\ b # 0 /\ LastIn(SubSeq(s, b + 1, Len(s)), {36}) = 0 /\ LastIn(SubSeq(s, a + 2, b), {36}) = 0 =>
     Replaced(env, s) = SubSeq(s, 1, a - 1) \o Value(env, SubSeq(s, a + 2, b - 1)) \o SubSeq(s, b + 1, Len(s))
PrintEdge == PrintT(ToJson([E |-> [s |-> pwd, e |-> [op |-> ev, env |-> env], t |-> s']]))
=============================================================================

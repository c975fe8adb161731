------------------------------- MODULE Config -------------------------------
(* The configuration: a map from keys to texts, observers of its keys, typed    *)
(* reads of its texts, one by one, in batches and as lists of structures.       *)
EXTENDS KeyValue
VARIABLES regs,  \* registrations of observers: <<observer, key>>; the empty key stands for all keys
          cl     \* the command line: [opts |-> <<name, text>> pairs, non |-> texts]

\* -------------------------------------------------------------------- observers
Regs(o, k) == Cardinality({i \in 1..Len(regs) : regs[i] = <<o, k>> \/ regs[i] = <<o, <<>>>>})
Told(told, o, k) == Cardinality({i \in 1..Len(told) : told[i][1] = o /\ told[i][2] = k})
\* Exactly those that registered for the key are told, of this key and its new text
ToldOf(told, k, v) ==
  /\ \A i \in 1..Len(told) : told[i][2] = k /\ told[i][3] = v /\ Regs(told[i][1], k) > 0
  /\ \A i \in 1..Len(regs) : Regs(regs[i][1], k) > 0 => Told(told, regs[i][1], k) \in 1..Regs(regs[i][1], k)
Set(k, v) == dir' = Put(dir, k, v) /\ UNCHANGED <<regs, cl>>
\* A new observer is told of what is there
ToldAtOnce(told, o, k) ==
  LET ks == IF k = <<>> THEN Keys ELSE {k} \cap Keys IN
  /\ Len(told) = Cardinality(ks)
  /\ {told[i] : i \in 1..Len(told)} = {<<o, x, dir[x]>> : x \in ks}
Register(o, k) == regs' = Append(regs, <<o, k>>) /\ UNCHANGED <<dir, cl>>
Unregister(o) == regs' = SelectSeq(regs, LAMBDA r : r[1] # o) /\ UNCHANGED <<dir, cl>>

\* -------------------------------------------------------------------- the value a text denotes
(* A value is represented by its canonical text.                                *)
Blank == {9, 10, 11, 12, 13, 32}
Fail == [ok |-> FALSE, v |-> <<>>]
Ok(v) == [ok |-> TRUE, v |-> v]
Trim(s) == IF FirstNotIn(s, Blank, 1) = 0 THEN <<>> ELSE SubSeq(s, FirstNotIn(s, Blank, 1), LastNotIn(s, Blank))
Strip0(d) == IF FirstNotIn(d, {48}, 1) = 0 THEN <<48>> ELSE SubSeq(d, FirstNotIn(d, {48}, 1), Len(d))
HexDigit(c) == IF c >= 97 THEN c - 87 ELSE IF c >= 65 THEN c - 55 ELSE c - 48
RECURSIVE BaseVal(_, _, _)
BaseVal(s, b, a) == IF s = <<>> THEN a ELSE BaseVal(Tail(s), b, b * a + HexDigit(Head(s)))
\* Decimal digits of an integer text without its sign; 0x.. is hexadecimal, 0.. is octal
Magnitude(s) == IF Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {88, 120} THEN Dec(BaseVal(SubSeq(s, 3, Len(s)), 16, 0))
                ELSE IF s[1] = 48 THEN Dec(BaseVal(s, 8, 0)) ELSE Strip0(s)
AtMost(d, limit) == Len(d) < Len(limit) \/ (Len(d) = Len(limit) /\ (d = limit \/ LexLess(d, limit)))
Limit == [i16 |-> <<B("32767"), B("32768")>>, i32 |-> <<B("2147483647"), B("2147483648")>>,
          i64 |-> <<B("9223372036854775807"), B("9223372036854775808")>>, u32 |-> <<B("4294967295"), B("0")>>, u64 |-> <<B("18446744073709551615"), B("0")>>]
Signed(s) == s # <<>> /\ s[1] \in {43, 45}
Unsign(s) == IF Signed(s) THEN Tail(s) ELSE s
IntOf(t, text) ==
  LET s == Trim(text)
      u == Unsign(s)
      neg == Signed(s) /\ s[1] = 45
  IN IF u = <<>> \/ ~IsDigit(u[1]) THEN Fail
     ELSE LET m == Magnitude(u) IN
          IF ~AtMost(m, Limit[t][IF neg THEN 2 ELSE 1]) THEN Fail
          ELSE Ok(IF neg /\ m # <<48>> THEN <<45>> \o m ELSE m)
\* [sign] digits [. digits] [e [sign] digits], as the shortest positional decimal number
DblOf(text) ==
  LET s == Trim(text)
      u == Unsign(s)
      neg == Signed(s) /\ s[1] = 45
  IN IF u = <<>> \/ ~IsDigit(u[1]) THEN Fail
     ELSE LET ep == FirstIn(u, {69, 101}, 1)
              mant == IF ep = 0 THEN u ELSE SubSeq(u, 1, ep - 1)
              et == IF ep = 0 THEN <<48>> ELSE SubSeq(u, ep + 1, Len(u))
              ex == IF Signed(et) /\ et[1] = 45 THEN -Val(Tail(et)) ELSE Val(Unsign(et))
              dot == FirstIn(mant, {46}, 1)
              int == IF dot = 0 THEN mant ELSE SubSeq(mant, 1, dot - 1)
              frac == IF dot = 0 THEN <<>> ELSE SubSeq(mant, dot + 1, Len(mant))
              d == int \o frac
              p == Len(int) + ex
              wide == IF p < 0 THEN Rep(48, -p) \o d ELSE IF p > Len(d) THEN d \o Rep(48, p - Len(d)) ELSE d
              q == IF p < 0 THEN 0 ELSE p
              ip == Strip0(SubSeq(wide, 1, q))
              ft == SubSeq(wide, q + 1, Len(wide))
              fp == SubSeq(ft, 1, LastNotIn(ft, {48}))
          IN Ok((IF neg THEN <<45>> ELSE <<>>) \o ip \o (IF fp = <<>> THEN <<>> ELSE <<46>> \o fp))
True == B("true")
False == B("false")
BoolOf(text) == LET s == LowerS(text) IN
                IF s \in {B("1"), B("yes"), B("true")} THEN Ok(True) ELSE IF s \in {B("0"), B("no"), B("false")} THEN Ok(False) ELSE Fail
Colours == <<B("Red"), B("Green"), B("blue"), B("Dark Red")>>
EnumOf(text) == LET c == {i \in 1..Len(Colours) : Colours[i] = text} IN IF c = {} THEN Fail ELSE Ok(Dec(MinOf(c) - 1))
Denotes(t, text) == CASE t = "str" -> Ok(text)
                      [] t = "bool" -> BoolOf(text)
                      [] t = "enum" -> EnumOf(text)
                      [] t = "dbl" -> DblOf(text)
                      [] OTHER -> IntOf(t, text)
\* A value that is set is stored as a text that denotes it
Zero(t) == CASE t = "str" -> <<>> [] t = "bool" -> False [] OTHER -> <<48>>

\* -------------------------------------------------------------------- reads
\* The text a read refers to
OptAt(nm) == {i \in 1..Len(cl.opts) : cl.opts[i][1] = nm}
Source(how, k, n) ==
  CASE how \in {"get", "getdef"} -> IF k \in Keys THEN [ok |-> TRUE, v |-> dir[k]] ELSE Fail
    [] how \in {"param", "paramdef"} -> IF OptAt(k) # {} THEN [ok |-> TRUE, v |-> cl.opts[MaxOf(OptAt(k))][2]] ELSE Fail
    [] how = "non" -> IF n < Len(cl.non) THEN [ok |-> TRUE, v |-> cl.non[n + 1]] ELSE Fail
Value(t, src) == IF src.ok THEN Denotes(t, src.v) ELSE Fail
Read(how, k, n, t, init) ==
  LET x == Value(t, Source(how, k, n)) IN
  [ok |-> x.ok \/ how \in {"getdef", "paramdef"}, v |-> IF x.ok THEN x.v ELSE init]
\* A member of a batch: [k, t, def, dv, init]
Member(pre, m) ==
  LET x == Value(m.t, Source("get", pre \o m.k, 0)) IN
  IF x.ok THEN x ELSE IF m.def THEN Ok(m.dv) ELSE [ok |-> FALSE, v |-> m.init]
Slash(p) == IF p = <<>> \/ EndsWith(p, <<47>>) THEN p ELSE p \o <<47>>
Batch(pre, ms) == LET r == [i \in 1..Len(ms) |-> Member(Slash(pre), ms[i])] IN
                  [ok |-> ms # <<>> /\ \A i \in 1..Len(ms) : r[i].ok, vals |-> [i \in 1..Len(ms) |-> r[i].v]]
\* Lists of structures: the keys prefix/element/suffix (or prefix/element)
Under(pre) == {k \in Keys : StartsWith(k, pre \o <<47>>) /\ Len(k) > Len(pre) + 1}
Rest(pre, k) == SubSeq(k, Len(pre) + 2, Len(k))
Elem(pre, k) == LET r == Rest(pre, k)
                    p == FirstIn(r, {47}, 1) IN IF p = 0 THEN r ELSE SubSeq(r, 1, p - 1)
Suffix(pre, k) == LET r == Rest(pre, k)
                      p == FirstIn(r, {47}, 1) IN IF p = 0 THEN <<>> ELSE SubSeq(r, p + 1, Len(r))
RECURSIVE Sort(_)
Sort(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ LexLess(x, y) IN <<m>> \o Sort(S \ {m})
Fields == <<"i32", "bool", "str", "enum">>
ListRead(pre, ms) ==
  LET used == {k \in Under(pre) : \E i \in 1..Len(ms) : ms[i].k = Suffix(pre, k)}
      of(k) == CHOOSE i \in 1..Len(ms) : ms[i].k = Suffix(pre, k)
      good == \A k \in used : Denotes(ms[of(k)].t, dir[k]).ok
      els == Sort({Elem(pre, k) : k \in used})
      key(el, i) == IF ms[i].k = <<>> THEN pre \o <<47>> \o el ELSE pre \o <<47>> \o el \o <<47>> \o ms[i].k
      field(el, t) == LET c == {i \in 1..Len(ms) : ms[i].t = t /\ key(el, i) \in Keys} IN
                      IF c = {} THEN Zero(t) ELSE Denotes(t, dir[key(el, MinOf(c))]).v
  IN IF used = {} \/ ~good THEN [ok |-> FALSE, out |-> <<>>]
     ELSE [ok |-> TRUE, out |-> [j \in 1..Len(els) |-> [f \in 1..4 |-> field(els[j], Fields[f])]]]
=============================================================================

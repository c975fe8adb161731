------------------------------- MODULE Getopt -------------------------------
(* Command lines. A declaration is a set of options (name, short name, with a   *)
(* value or not, prefix or not), the names of the required and the optional     *)
(* positional parameters, whether unknown options are refused (strict), and the *)
(* text that ends the regular command line (if there is one).                   *)
EXTENDS Bytes
VARIABLES decl, s    \* the declaration and what has become of the arguments so far
Dash == 45
Eq == 61
Yes == <<121, 101, 115>>
None == [name |-> <<>>, key |-> <<>>, pre |-> FALSE]
Start0 == [opts |-> <<>>, pre |-> <<>>, non |-> <<>>, at |-> <<>>, extra |-> <<>>, pos |-> 0, n |-> 0, ended |-> FALSE, fail |-> FALSE, want |-> None]
IsLong(a) == Len(a) > 2 /\ a[1] = Dash /\ a[2] = Dash /\ a[3] # Dash
IsShort(a) == Len(a) > 1 /\ a[1] = Dash /\ a[2] # Dash
EqAt(a) == FirstIn(a, {Eq}, 4)
LongName(a) == IF EqAt(a) = 0 THEN SubSeq(a, 3, Len(a)) ELSE SubSeq(a, 3, EqAt(a) - 1)
HasVal(a) == EqAt(a) # 0
LongVal(a) == SubSeq(a, EqAt(a) + 1, Len(a))
ShortName(a) == SubSeq(a, 2, Len(a))
Opts == decl.opts
\* The option an argument names: exactly, or by its prefix
Exact(nm, short) == {o \in Range(Opts) : ~o.pre /\ (IF short THEN o.short # <<>> /\ o.short = nm ELSE o.name = nm)}
Prefix(nm, short) == {o \in Range(Opts) : o.pre /\ (IF short THEN o.short # <<>> /\ StartsWith(nm, o.short) ELSE StartsWith(nm, o.name))}
Found(nm, short) == IF Exact(nm, short) # {} THEN Exact(nm, short) ELSE Prefix(nm, short)
Key(o, nm, short) == IF o.pre THEN SubSeq(nm, Len(IF short THEN o.short ELSE o.name) + 1, Len(nm)) ELSE <<>>
Put(r, o, key, v) == IF o.pre THEN [r EXCEPT !.pre = Append(@, <<o.name, key, v>>)] ELSE [r EXCEPT !.opts = Append(@, <<o.name, v>>)]
Non(r, a) == [r EXCEPT !.non = Append(@, a), !.at = Append(@, r.n)]
Unknown(r, a) == IF decl.strict THEN [r EXCEPT !.fail = TRUE] ELSE Non(r, a)
Positional == decl.req \o decl.opt
\* One more argument
Eat(r0, a) ==
  LET r == [r0 EXCEPT !.n = @ + 1] IN
  IF r.fail THEN r0
  ELSE IF r.want # None THEN
    [(IF r.want.pre THEN [r EXCEPT !.pre = Append(@, <<r.want.name, r.want.key, a>>)] ELSE [r EXCEPT !.opts = Append(@, <<r.want.name, a>>)]) EXCEPT !.want = None]
  ELSE IF r.ended THEN [r EXCEPT !.extra = Append(@, a)]
  ELSE IF IsLong(a) THEN
    LET f == Found(LongName(a), FALSE) IN
    IF f = {} THEN Unknown(r, a)
    ELSE LET o == CHOOSE x \in f : TRUE IN
         IF ~o.val THEN Put(r, o, Key(o, LongName(a), FALSE), Yes)
         ELSE IF HasVal(a) THEN Put(r, o, Key(o, LongName(a), FALSE), LongVal(a))
         ELSE [r EXCEPT !.fail = TRUE]
  ELSE IF IsShort(a) THEN
    LET f == Found(ShortName(a), TRUE) IN
    IF f = {} THEN Unknown(r, a)
    ELSE LET o == CHOOSE x \in f : TRUE IN
         IF o.val THEN [r EXCEPT !.want = [name |-> o.name, key |-> Key(o, ShortName(a), TRUE), pre |-> o.pre]]
         ELSE Put(r, o, Key(o, ShortName(a), TRUE), Yes)
  ELSE IF decl.extra /\ a = decl.delim THEN [r EXCEPT !.ended = TRUE]
  ELSE IF r.pos < Len(Positional) THEN [r EXCEPT !.opts = Append(@, <<Positional[r.pos + 1], a>>), !.pos = @ + 1]
  ELSE Non(r, a)
RECURSIVE EatAll(_, _)
EatAll(r, as) == IF as = <<>> THEN r ELSE EatAll(Eat(r, Head(as)), Tail(as))
HelpName == <<104, 101, 108, 112>>
Present(r, nm) == \E i \in 1..Len(r.opts) : r.opts[i][1] = nm
Value(r, nm) == IF Present(r, nm) THEN LET i == MaxOf({k \in 1..Len(r.opts) : r.opts[k][1] = nm}) IN r.opts[i][2] ELSE <<>>
PrefixList(r, nm) == LET q == SelectSeq(r.pre, LAMBDA x : x[1] = nm) IN [i \in 1..Len(q) |-> <<q[i][2], q[i][3]>>]
Outcome(r) == IF r.fail \/ r.want # None THEN "fail" ELSE IF r.pos < Len(decl.req) \/ Present(r, HelpName) THEN "help" ELSE "ok"
\* Every argument was assigned once
Accounted(r) == ~r.fail => r.n >= Len(r.opts) + Len(r.pre) + Len(r.non) + Len(r.extra) /\ Len(r.non) = Len(r.at)
=============================================================================

----------------------------- MODULE GetoptTrace -----------------------------
EXTENDS Getopt, TraceBase
e == Ln
D == [opts |-> e.opts, req |-> e.req, opt |-> e.opt, strict |-> e.strict, extra |-> e.extra, delim |-> e.delim]
Left(r) == IF e.cleanup THEN [i \in 1..Len(r.at) |-> r.at[i]] ELSE [i \in 1..Len(e.args) |-> i]
Good(r) ==
  /\ e.got = [i \in 1..Len(e.ask) |-> <<Present(r, e.ask[i]), Value(r, e.ask[i])>>]
  /\ e.pre = [i \in 1..Len(e.askpre) |-> <<PrefixList(r, e.askpre[i]) # <<>>, PrefixList(r, e.askpre[i])>>]
  /\ e.non = r.non \o <<<<>>>>           \* and nothing behind them
  /\ e.nnon = Len(r.non)
  /\ e.ex = r.extra
  /\ e.left = Left(r)                    \* the arguments (by number) that are left on the command line
  /\ e.argc = Len(e.args) + 1
  /\ e.prog
TNext ==
  /\ Step
  /\ CASE e.op = "new" -> UNCHANGED <<decl, s>>
       [] e.op = "parse" -> /\ decl' = D
                            /\ s' = Start0
       [] e.op = "result" -> /\ UNCHANGED decl
                             /\ s' = EatAll(s, e.args)
                             /\ e.out = Outcome(s')
                             /\ (e.out = "ok" => Good(s'))
                             /\ (e.out # "ok" => e.help)      \* all that was declared is listed
       [] OTHER -> FALSE
TSpec == decl = [opts |-> <<>>, req |-> <<>>, opt |-> <<>>, strict |-> TRUE, extra |-> FALSE, delim |-> <<>>] /\ s = Start0 /\ l = 0 /\ [][TNext]_<<decl, s, l>>
=============================================================================

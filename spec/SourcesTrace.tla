---------------------------- MODULE SourcesTrace ----------------------------
EXTENDS Sources, TraceBase
e == Ln
Unch == UNCHANGED <<decl, s, fs, params, pos, conf>>
Pairs(q) == {q[i] : i \in 1..Len(q)}
(* Each setting is announced; the last announcement of a key carries its text. *)
ToldOf(told, f, keys) ==
  /\ {told[i][1] : i \in {j \in 1..Len(told) : Own(told[j][1])}} = {k \in keys : Own(k)}
  /\ \A k \in {x \in keys : Own(x)} : told[MaxOf({i \in 1..Len(told) : told[i][1] = k})][2] = f[k]
Shown(q, f) == LET own == SelectSeq(q, LAMBDA x : Own(x[1])) IN
  Len(own) = Cardinality({k \in DOMAIN f : Own(k)}) /\ Pairs(own) = {<<k, f[k]>> : k \in {x \in DOMAIN f : Own(x)}}
TNext ==
  /\ Step /\ ev' = e.op
  /\ CASE e.op = "new" -> Unch
       [] e.op = "parse" -> /\ decl' = [opts |-> e.opts, req |-> e.req, opt |-> e.opt, strict |-> e.strict, extra |-> FALSE, delim |-> B("--")]
                            /\ s' = G!Start0 /\ fs' = e.files /\ params' = e.params /\ pos' = e.pos /\ conf' = << >>
       [] e.op = "result" ->
            /\ UNCHANGED <<decl, fs, params, pos>>
            /\ s' = G!EatAll(s, e.args)
            /\ e.out = Result(s')
            /\ IF e.out # "ok" THEN conf' = conf
               ELSE /\ conf' = Config(AllSets(s'))
                    /\ Shown(e.conf, conf') /\ ToldOf(e.told, conf', DOMAIN conf')
                    /\ e.dumped = G!Present(s', B("dump-config")) /\ (e.dumped => Shown(e.dump, conf'))
                    /\ e.init
       [] e.op = "setfile" -> LET sets == FileSets(e.f) \o <<<<ConfigfileKey, e.f>>>> IN
            /\ UNCHANGED <<decl, s, fs, params, pos>> /\ conf' = Over(conf, sets)
            /\ Shown(e.conf, conf') /\ ToldOf(e.told, conf', KeysOf(sets))
       [] OTHER -> FALSE
TSpec == /\ decl = [opts |-> << >>, req |-> << >>, opt |-> << >>, strict |-> TRUE, extra |-> FALSE, delim |-> << >>] /\ s = G!Start0
         /\ fs = << >> /\ params = << >> /\ pos = << >> /\ conf = << >> /\ ev = "init" /\ l = 0 /\ [][TNext]_<<decl, s, fs, params, pos, conf, ev, l>>
=============================================================================

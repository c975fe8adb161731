---------------------------- MODULE PluginsTrace ----------------------------
EXTENDS Plugins, TraceBase
e == Ln
None == [x \in {} |-> 0]
Files == {e.files[i] : i \in 1..Len(e.files)}
Act ==
  CASE e.op = "new" -> /\ files' = Files /\ paths' = e.paths /\ on' = FALSE /\ lazy' = FALSE /\ fail' = {} /\ good' = {} /\ dyn' = None /\ inst' = None
                       /\ stat' = None /\ made' = 0
    [] e.op = "init" -> e.r /\ Initialize(e.lazy, e.rec)
    [] e.op = "state" -> e.on = on /\ (on => e.lazy = lazy) /\ UNCHANGED vars
    [] e.op = "avail" -> Available(e.ids)
    [] e.op = "all" -> All(e.l)
    [] e.op = "plugin" -> Plugin(e.id, e.k, e.n)
    [] e.op = "create" -> Create(e.id, e.k, e.n)
    [] e.op = "hand" -> Hand(e.id, e.n)
    [] e.op = "drop" -> Drop(e.id)
    [] e.op = "isstatic" -> e.r = (e.id \in DOMAIN stat) /\ UNCHANGED vars
    [] e.op = "path" -> Path(e.p)
    [] e.op = "paths" -> e.l = paths /\ UNCHANGED vars
    [] e.op = "errors" -> Reported({e.m[i] : i \in 1..Len(e.m)}) /\ UNCHANGED vars
    [] e.op = "del" -> e.gone = Loaded /\ UNCHANGED vars
    [] OTHER -> FALSE
TInit == files = {} /\ paths = <<>> /\ on = FALSE /\ lazy = FALSE /\ fail = {} /\ good = {} /\ dyn = None /\ inst = None /\ stat = None /\ made = 0 /\ l = 0
TNext == Step /\ Act /\ e.made = made'
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================

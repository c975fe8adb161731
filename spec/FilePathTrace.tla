--------------------------- MODULE FilePathTrace ---------------------------
EXTENDS FilePath, TraceBase
e == Ln
Same == pwd' = pwd /\ env' = env
TNext ==
  /\ Step /\ ev' = e.op
  /\ CASE e.op = "new" -> pwd' = <<SL>> /\ env' = << >>
       [] e.op = "pwd" -> pwd' = e.v /\ env' = env
       [] e.op = "env" -> pwd' = pwd /\ env' = SetEnv(env, e.k, e.v)
       [] e.op = "unset" -> pwd' = pwd /\ env' = SelectSeq(env, LAMBDA x : x[1] # e.k)
       [] e.op = "file" -> LET f == File(pwd, e.s) IN
            /\ Same /\ e.abs = f.abs /\ e.path = f.path /\ e.name = f.name /\ e.ext = f.ext
            /\ e.path \o e.name = e.abs /\ EndsWith(e.name, e.ext)
            /\ e.cur = Current(pwd) /\ ~e.rel
            /\ e.same /\ e.joined = Abs(pwd, e.s)
       [] e.op = "norm" -> Same /\ e.r = Norm(e.s) /\ e.rel = Rel(e.s) /\ e.ex = Exchange(e.s)
       [] e.op = "get" -> Same /\ e.r = Value(env, e.s)
       [] e.op = "repl" -> Same /\ e.r = Replaced(env, e.s)
       [] OTHER -> FALSE
TSpec == pwd = <<SL>> /\ env = << >> /\ ev = "init" /\ l = 0 /\ [][TNext]_<<pwd, env, ev, l>>
=============================================================================

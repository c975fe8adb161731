------------------------------ MODULE FileLogMC ------------------------------
(* Every history of a log file over a few days.                               *)
EXTENDS FileLog, Json
CONSTANTS Base, Days, MaxLines, MaxOpens, Olders, Flushes, Dirs
VARIABLES zip, opens,    \* whether this log is written compressed
          wday,   \* line -> the day on which it was written
          ev
mvars == <<fvars, zip, opens, wday, ev>>
A == <<97>>
Line(k) == <<128 + k>>
Init == /\ files = [x \in {} |-> 0] /\ now = Base * 86400 + 5 /\ out = Off /\ behind = 0
        /\ zip \in BOOLEAN /\ opens = 0 /\ wday = <<>> /\ ev = [op |-> "new"]
Do(a, e) == a /\ ev' = e /\ zip' = zip /\ opens' = opens + (IF e.op = "open" THEN 1 ELSE 0)
Next ==
  \/ opens < MaxOpens /\ \E rot \in BOOLEAN, older \in {IF k = 99 THEN -1 ELSE k : k \in Olders}, flush \in Flushes :
       Do(Open(A, rot, older, zip, flush) /\ wday' = wday, [op |-> "open", n |-> A, rot |-> rot, older |-> older, zip |-> zip, flush |-> flush])
  \/ Len(wday) < MaxLines /\ Do(Log(Line(Len(wday) + 1), 1) /\ wday' = Append(wday, Day(now)), [op |-> "log", t |-> Line(Len(wday) + 1), k |-> 1])
  \/ Do(Close /\ wday' = wday, [op |-> "close"])
  \/ \E k \in {1, 2} : Day(now) + k =< Base + Days /\ Do(Tick(now + k * 86400) /\ wday' = wday, [op |-> "tick", s |-> now + k * 86400])
  \/ Dirs /\ \E n \in {A \o Date(Day(now)) \o (IF zip THEN <<>> ELSE <<46, 103, 122>>)} :
       (~\E k \in DOMAIN files : files[k].d) /\ n \notin DOMAIN files /\ Do(Mkdir(n) /\ wday' = wday, [op |-> "dir", n |-> n])
Spec == Init /\ [][Next]_mvars

Ids(n) == SelectSeq(files[n].c, LAMBDA k : k > 128)
There == UNION {{Ids(n)[i] - 128 : i \in 1..Len(Ids(n))} : n \in DOMAIN files}
(* Every line is in one file, and the lines of a file are in the order in which they were written. *)
Once == /\ \A a \in DOMAIN files : \A b \in DOMAIN files : a # b => {Ids(a)[i] : i \in 1..Len(Ids(a))} \cap {Ids(b)[i] : i \in 1..Len(Ids(b))} = {}
        /\ \A n \in DOMAIN files : \A i, j \in 1..Len(Ids(n)) : i < j => Ids(n)[i] < Ids(n)[j]
(* The file of a day has nothing that was written later. *)
Dated == \A d \in Base..(Base + Days) : \A n \in {A \o Date(d), A \o Date(d) \o <<46, 103, 122>>} : n \in DOMAIN files =>
            \A i \in 1..Len(Ids(n)) : wday[Ids(n)[i] - 128] =< d
(* A line is lost only when it is older than asked for. *)
Kept == [][LET was == There IN \A k \in 1..Len(wday) : (k \in was /\ k \notin There') => (out'.older >= 0 /\ wday[k] < Day(now) - out'.older)]_mvars
(* Nothing that is to be deleted stays after a rotation. *)
Cleaned == [][(out'.on /\ out'.older >= 0 /\ out'.rot /\ out'.last # out.last /\ out.on) => \A n \in DOMAIN files' : files'[n].d \/ ~StartsWith(n, A) \/ Day(files'[n].m) >= Day(now) - out'.older]_mvars
View == <<fvars, zip, opens, wday>>
State == [f |-> {<<n, files[n]>> : n \in DOMAIN files}, now |-> now, out |-> out, b |-> behind, z |-> zip, k |-> opens, w |-> wday]
PrintEdge == PrintT(ToJson([E |-> [s |-> State, e |-> ev', t |-> State']]))
=============================================================================

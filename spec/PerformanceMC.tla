--------------------------- MODULE PerformanceMC ---------------------------
(* All histories over two prefixes with one name, one timer and few samples.    *)
EXTENDS Performance, Json
CONSTANTS MaxNow, MaxSamples, MaxNon, WithTell
VARIABLES now, ev, rec   \* rec: everything that was to be recorded since the last initialisation
P == {"", "p"}
Init == names = <<"", "a", "p">> /\ now = 0 /\ on = TRUE /\ ps = TRUE /\ all = FALSE /\ en = {} /\ timer = None /\ time = None /\ non = None /\ stat = None
        /\ ev = [op |-> "new"] /\ rec = {}
Size == Cardinality(rec)
Note(kind, p, v) == rec' = IF Enabled(p) THEN rec \cup {[k |-> kind, p |-> p, v |-> v, i |-> Size + 1]} ELSE rec
Room == Size < MaxSamples
Total(kind) == Cardinality({x \in rec : x.k = kind})
Value(p) == IF Enabled(p) THEN now - timer["t"][1] ELSE 0
Lapped(p) == IF "t" \in DOMAIN timer THEN Value(p) ELSE 0
Still ==
  \/ Initialize /\ rec' = {} /\ ev' = [op |-> "init"]
  \/ Start("t", now, now) /\ UNCHANGED rec /\ ev' = [op |-> "start", t |-> "t"]
  \/ \E p \in P : Room /\ "t" \in DOMAIN timer /\ Measure("t", p, "a", Value(p), now, now) /\ Note("time", p, Value(p)) /\ ev' = [op |-> "meas", t |-> "t", p |-> p, n |-> "a"]
  \/ \E p \in P : Room /\ Lap("t", p, "a", Lapped(p), now, now) /\ ev' = [op |-> "lap", t |-> "t", p |-> p, n |-> "a"]
                  /\ IF "t" \in DOMAIN timer THEN Note("time", p, Value(p)) ELSE UNCHANGED rec
  \/ \E p \in P, v \in {-1, 5} : Room /\ Data(p, "a", v) /\ Note("time", p, v) /\ ev' = [op |-> "data", p |-> p, n |-> "a", v |-> v]
  \/ \E p \in P : Room /\ Total("non") < MaxNon /\ NonTime(p, "a", 3) /\ Note("non", p, 3) /\ ev' = [op |-> "non", p |-> p, n |-> "a", v |-> 3]
  \/ Static("", "a", 7) /\ UNCHANGED rec /\ ev' = [op |-> "static", p |-> "", n |-> "a", v |-> 7]
  \/ Enable("p") /\ UNCHANGED rec /\ ev' = [op |-> "enable", p |-> "p"]
  \/ \E p \in P : Disable(p) /\ UNCHANGED rec /\ ev' = [op |-> "disable", p |-> p]
  \/ \E b \in BOOLEAN : \/ EnableAll(b) /\ UNCHANGED rec /\ ev' = [op |-> "all", b |-> b]
                        \/ Operate(b) /\ UNCHANGED rec /\ ev' = [op |-> "on", b |-> b]
  \/ WithTell /\ Tell(~ps) /\ UNCHANGED rec /\ ev' = [op |-> "tell", b |-> ~ps]
  \/ UNCHANGED <<vars, rec>> /\ \E p \in P : ev' \in {[op |-> "sum", p |-> p, n |-> "a"], [op |-> "sumpre", p |-> p]}
  \/ UNCHANGED <<vars, rec>> /\ ev' = [op |-> "sumall"]
Next == (Still /\ UNCHANGED now) \/ (now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, rec>> /\ ev' = [op |-> "tick", d |-> 1])
Spec == Init /\ [][Next]_<<vars, now, ev, rec>>
View == <<now, on, ps, all, en, timer, time, non, stat>>
\* Exactly what was recorded while it was enabled enters the figures
Multi(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Exactly == \A p \in P, v \in -1..5 : LET At(f) == IF <<p, "a">> \in DOMAIN f THEN Multi(f[<<p, "a">>], v) ELSE 0 IN
              /\ At(time) = Cardinality({x \in rec : x.k = "time" /\ x.p = p /\ x.v = v})
              /\ At(non) = Cardinality({x \in rec : x.k = "non" /\ x.p = p /\ x.v = v})
Figured == \A k \in DOMAIN time : LET s == time[k] IN Len(s) > 0 /\ Min(s) <= Median(s) /\ Median(s) <= Max(s) /\ Min(s) * Len(s) <= Sum(s) /\ Sum(s) <= Max(s) * Len(s)
Off == [][~on /\ on' => time' = time]_<<vars, now, ev, rec>>
Quiet == [][~on /\ ~on' /\ ev'.op # "init" => time' = time /\ non' = non /\ stat' = stat /\ timer' = timer]_<<vars, now, ev, rec>>
PrintEdge == PrintT(ToJson([E |-> [s |-> View, e |-> ev', t |-> View']]))
=============================================================================

----------------------------- MODULE Performance -----------------------------
(* A performance monitor: timers, samples grouped by prefix and name, and the   *)
(* figures that are printed of them. Times and samples are in eighths of a      *)
(* millisecond or whatever else is measured.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES names,  \* every name and prefix in use, in the order of their texts
          on,     \* operational
          ps,     \* measurements are printed
          all,    \* all prefixes are enabled
          en,     \* the prefixes that are enabled
          timer,  \* timer -> when it was started: <<earliest, latest>>
          time,   \* <<prefix, name>> -> samples
          non,    \* the same for samples that are no times
          stat    \* <<prefix, name>> -> value
vars == <<names, on, ps, all, en, timer, time, non, stat>>
Unit == 8
Enabled(p) == on /\ (all \/ p \in en)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Add(f, k, v) == Put(f, k, IF k \in DOMAIN f THEN Append(f[k], v) ELSE <<v>>)
None == [x \in {} |-> 0]
\* What is printed: messages of lines, each with at most one number num/den (none if den = 0)
Line(t) == [t |-> t, num |-> 0, den |-> 0]
Fig(t, num, den) == [t |-> t, num |-> num, den |-> den]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
\* the figures of samples: of an even number of them the median is the upper one of the two in the middle
Below(s, i) == Cardinality({j \in 1..Len(s) : s[j] < s[i] \/ (s[j] = s[i] /\ j < i)})
Nth(s, n) == s[CHOOSE i \in 1..Len(s) : Below(s, i) = n]
Median(s) == Nth(s, Len(s) \div 2)
Min(s) == Nth(s, 0)
Max(s) == Nth(s, Len(s) - 1)
Full(k) == k[1] \o "::" \o k[2]
Figures(k, s, count, unit) ==
  <<Line("Summary for " \o Full(k)), Fig(count[1] \o "#" \o count[2], Len(s), 1), Fig(k[2] \o "_avg: #" \o unit, Sum(s), Unit * Len(s)),
    Fig(k[2] \o "_median: #" \o unit, Median(s), Unit), Fig(k[2] \o "_min: #" \o unit, Min(s), Unit), Fig(k[2] \o "_max: #" \o unit, Max(s), Unit), Line("")>>
Time(k) == Figures(k, time[k], <<"Called ", " times">>, " ms")
Non(k) == Figures(k, non[k], <<"num entries: ", "">>, "")
Stat(k) == <<Fig(k[2] \o ": #", stat[k], Unit)>>
\* the names of a prefix that are in D, in order
Of(D, p) == SelectSeq(names, LAMBDA n : <<p, n>> \in D)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Part(title, D, p, F(_)) == LET ns == Of(D, p) IN IF ns = <<>> THEN <<>> ELSE <<Line(title)>> \o Cat([i \in 1..Len(ns) |-> F(<<p, ns[i]>>)])
Summary(p) == <<Line(""), Line("########## Begin of Summary for prefix " \o p \o " ##########")>> \o Part("#### Static data: ####", DOMAIN stat, p, Stat)
              \o Part("#### Time data: ####", DOMAIN time, p, Time) \o Part("#### Non-time data: ####", DOMAIN non, p, Non)
Measured(k, v) == <<<<Fig(Full(k) \o ": # ms", v, Unit)>>>>
\* The operations; r is what is returned, out what is printed
Init0(ns) == names' = ns /\ on' = TRUE /\ ps' = TRUE /\ all' = FALSE /\ en' = {} /\ timer' = None /\ time' = None /\ non' = None /\ stat' = None
Initialize == time' = None /\ non' = None /\ en' = en \cup {""} /\ UNCHANGED <<names, on, ps, all, timer, stat>>
Lower(a, b) == IF a < b THEN a ELSE b
Upper(a, b) == IF a > b THEN a ELSE b
\* (an operation reads the clock between `from' and till)
Start(t, from, till) == timer' = (IF on THEN Put(timer, t, <<from, till>>) ELSE timer) /\ UNCHANGED <<names, on, ps, all, en, time, non, stat>>
\* a measurement of v: when it was made and when the timer was started then
Ends(t, v, from, till) == <<Upper(from, timer[t][1] + v), Lower(till, timer[t][2] + v)>>
Begins(t, v, from, till) == <<Upper(from - v, timer[t][1]), Lower(till - v, timer[t][2])>>
Some(i) == i[1] <= i[2]
Said(p, n, v) == IF Enabled(p) /\ ps THEN Measured(<<p, n>>, v) ELSE <<>>
Measure(t, p, n, v, from, till) ==
  /\ UNCHANGED <<names, on, ps, all, en, non, stat>>
  /\ IF Enabled(p) THEN /\ Some(Ends(t, v, from, till)) /\ time' = Add(time, <<p, n>>, v)
                        /\ timer' = Put(timer, t, Begins(t, v, from, till))
     ELSE v = 0 /\ UNCHANGED <<timer, time>>
\* the next lap begins when this one ends
Lap(t, p, n, v, from, till) ==
  /\ UNCHANGED <<names, on, ps, all, en, non, stat>>
  /\ IF ~Enabled(p) THEN v = 0 /\ UNCHANGED <<timer, time>>
     ELSE IF t \in DOMAIN timer THEN Some(Ends(t, v, from, till)) /\ time' = Add(time, <<p, n>>, v) /\ timer' = Put(timer, t, Ends(t, v, from, till))
     ELSE v = 0 /\ timer' = Put(timer, t, <<from, till>>) /\ UNCHANGED time
LapSaid(t, p, n, v) == IF t \in DOMAIN timer THEN Said(p, n, v) ELSE <<>>
Data(p, n, v) == time' = (IF Enabled(p) THEN Add(time, <<p, n>>, v) ELSE time) /\ UNCHANGED <<names, on, ps, all, en, timer, non, stat>>
NonTime(p, n, v) == non' = (IF Enabled(p) THEN Add(non, <<p, n>>, v) ELSE non) /\ UNCHANGED <<names, on, ps, all, en, timer, time, stat>>
Static(p, n, v) == stat' = (IF Enabled(p) THEN Put(stat, <<p, n>>, v) ELSE stat) /\ UNCHANGED <<names, on, ps, all, en, timer, time, non>>
Enable(p) == en' = en \cup {p} /\ UNCHANGED <<names, on, ps, all, timer, time, non, stat>>
Disable(p) == en' = en \ {p} /\ UNCHANGED <<names, on, ps, all, timer, time, non, stat>>
EnableAll(b) == all' = b /\ UNCHANGED <<names, on, ps, en, timer, time, non, stat>>
Operate(b) == on' = b /\ UNCHANGED <<names, ps, all, en, timer, time, non, stat>>
Tell(b) == ps' = b /\ UNCHANGED <<names, on, all, en, timer, time, non, stat>>
\* the prefixes that are enabled one by one, in order
Order == SelectSeq(names, LAMBDA n : n \in en)
=============================================================================

------------------------------ MODULE Records ------------------------------
(* Outputs that pass on the items of a message: one datagram or one database    *)
(* row for each message that is admitted.                                       *)
EXTENDS Big, Bytes, Integers, Sequences, TLC
VARIABLES kind,   \* "udp" or "sql"
          sys,    \* the name of the system that is sent
          lev,    \* the level of the output
          rot,    \* whether the database is changed every day
          last,   \* the day of the last change
          now,    \* the clock: [s, n]
          q,      \* messages handed to the output and not passed on yet
          dbs,    \* databases in the directory: name -> rows
          dirs    \* names of directories there
vars == <<kind, sys, lev, rot, last, now, q, dbs, dirs>>
Txt == INSTANCE LogText WITH fmt <- 0, tf <- 0, pend <- 0, now <- 0
Cal == INSTANCE Calendar WITH x <- 0, t <- 0, ev <- 0
\* the items as an output gets them
Held(m) == [m EXCEPT !.s = Txt!Cut(@, Txt!Ident), !.f = Txt!Cut(@, Txt!Descr), !.c = Txt!Cut(@, Txt!Ident), !.o = Txt!Cut(@, Txt!Descr),
                     !.d = Txt!Cut(@, Txt!Ident), !.t = Txt!Cut(@, 2048)]
Time(w) == Cal!FmtExt(Cal!Count(BInt(w.s), w.n), "UTC")
\* A quoted item: what would end it, and the sign that prevents this, are preceded by that sign
Quote == 39
Slash == 92
Escaped(s) == Concat([i \in 1..Len(s) |-> IF s[i] \in {Quote, Slash} THEN <<Slash, s[i]>> ELSE <<s[i]>>])
Item(s) == <<Quote>> \o Escaped(s) \o <<Quote>>
Datagram(m) == JoinWith(<<Item(sys), Item(Time(m.w)), Dec(m.w.n), Item(Txt!LevelText(m.l)), Item(m.s), Item(m.f), Dec(m.n), Item(m.c), Item(m.o), Item(m.d), Item(m.t)>>, <<44>>)
Row(m) == [app |-> <<>>, w |-> Time(m.w), s |-> m.s, l |-> Txt!LevelText(m.l), f |-> m.f, n |-> m.n, c |-> m.c, o |-> m.o, d |-> m.d, t |-> m.t]
\* The receiver's view: the items of a datagram
RECURSIVE Items(_, _, _, _)
Items(g, i, cur, in) ==
  IF i > Len(g) THEN <<cur>>
  ELSE IF in /\ g[i] = Slash /\ i < Len(g) THEN Items(g, i + 2, Append(cur, g[i + 1]), TRUE)
  ELSE IF g[i] = Quote THEN Items(g, i + 1, cur, ~in)
  ELSE IF g[i] = 44 /\ ~in THEN <<cur>> \o Items(g, i + 1, <<>>, FALSE)
  ELSE Items(g, i + 1, Append(cur, g[i]), in)
Plain(m) == <<sys, Time(m.w), Dec(m.w.n), Txt!LevelText(m.l), m.s, m.f, Dec(m.n), m.c, m.o, m.d, m.t>>
Faithful(m) == Items(Datagram(m), 1, <<>>, FALSE) = Plain(m)

Base == <<108, 46, 100, 98>>      \* l.db
Today == now.s \div 86400
Dated == Base \o <<46>> \o Txt!TimeText(B("%") \o <<89>> \o B("-%m-%d"), Cal!Stamp(BInt(now.s), "UTC"), 1)
Put(f, k, v) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN v ELSE f[n]]
\* Databases D after the messages ms were written; L: the day of the last change
Opened(D) == IF Base \in DOMAIN D THEN D ELSE Put(D, Base, <<>>)
Changed(D) == IF Dated \in dirs THEN D ELSE Put(Put(D, Dated, D[Base]), Base, <<>>)
RECURSIVE Rows(_, _)
Rows(D, ms) == IF ms = <<>> THEN D ELSE Rows(Put(D, Base, Append(D[Base], Row(Head(ms)))), Tail(ms))
Due == kind = "sql" /\ rot /\ last # Today /\ q # <<>>
Make(k, y, v, r) == kind' = k /\ sys' = y /\ lev' = v /\ rot' = r /\ last' = Today /\ q' = <<>> /\ UNCHANGED <<now, dbs, dirs>>
Push(m) == q' = (IF m.l >= lev THEN Append(q, Held(m)) ELSE q) /\ UNCHANGED <<kind, sys, lev, rot, last, now, dbs, dirs>>
Sync == /\ q' = <<>> /\ last' = (IF Due THEN Today ELSE last) /\ UNCHANGED <<kind, sys, lev, rot, now, dirs>>
        /\ dbs' = (IF kind = "udp" THEN dbs ELSE Rows(IF Due THEN Changed(Opened(dbs)) ELSE Opened(dbs), q))
Tick(s, n) == now' = [s |-> s, n |-> n] /\ UNCHANGED <<kind, sys, lev, rot, last, q, dbs, dirs>>
Dir(n) == dirs' = dirs \cup {n} /\ UNCHANGED <<kind, sys, lev, rot, last, now, q, dbs>>
=============================================================================

------------------------------- MODULE FileLog -------------------------------
(* One file output, the directory its file is in, and the clock.              *)
EXTENDS Big, Bytes, Integers, Sequences, FiniteSets, TLC
VARIABLES files,   \* name -> [c: what is in it, m: when it was last written, d: it is a directory]
          now,     \* seconds since 1970
          out,     \* the output: on, its file, its options, the day of its last rotation
          behind   \* bytes of its file which need not be visible yet
Cal == INSTANCE Calendar WITH x <- 0, t <- 0, ev <- 0
fvars == <<files, now, out, behind>>
Day(s) == s \div 86400
Header == <<10, 10>> \o Rep(45, 13) \o B("FILE (RE-)OPENED") \o Rep(45, 18) \o <<10>>
Date(day) == LET k == Cal!Civil(day) IN <<46>> \o Dec(k.y) \o <<45>> \o Pad0(k.m, 2) \o <<45>> \o Pad0(k.d, 2)
Off == [on |-> FALSE, name |-> <<>>, rot |-> FALSE, older |-> -1, zip |-> FALSE, flush |-> TRUE, last |-> 0]
Set(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, ks) == [x \in (DOMAIN f) \ ks |-> f[x]]
File(f, n) == n \in DOMAIN f /\ ~f[n].d
Added(f, n, s) == Set(f, n, [c |-> (IF n \in DOMAIN f THEN f[n].c ELSE <<>>) \o s, m |-> (IF s = <<>> /\ n \in DOMAIN f THEN f[n].m ELSE now), d |-> FALSE])
(* The file is closed: what was kept back is written. *)
Closed(f, o, b) == IF o.on /\ (o.zip \/ b > 0) THEN [f EXCEPT ![o.name].m = now] ELSE f
(* Moved to the file of a day; if that is not possible, it stays. *)
Moved(f, o) == LET to == o.name \o Date(o.last) \o (IF o.zip THEN <<>> ELSE <<46, 103, 122>>)
               IN IF ~File(f, o.name) \/ (to \in DOMAIN f /\ f[to].d) THEN f
                  ELSE Set(Del(f, {o.name}), to, IF o.zip THEN f[o.name] ELSE [f[o.name] EXCEPT !.m = now])
Outdated(f, o) == IF o.older < 0 THEN {} ELSE {n \in DOMAIN f : ~f[n].d /\ StartsWith(n, o.name) /\ Day(f[n].m) < Day(now) - o.older}
Due(o) == o.rot /\ o.last # Day(now)
Rotated(f, o) == LET f1 == Moved(f, o) IN Added(Del(f1, Outdated(f1, o)), o.name, Header)

Open(name, rot, older, zip, flush) ==
  LET o == [on |-> TRUE, name |-> name, rot |-> rot, older |-> older, zip |-> zip, flush |-> flush, last |-> IF name \in DOMAIN files THEN Day(files[name].m) ELSE Day(now)]
  IN /\ ~out.on
     /\ out' = [o EXCEPT !.last = Day(now)]
     /\ files' = (IF Due(o) /\ name \in DOMAIN files THEN Rotated(files, o) ELSE Added(files, name, Header))
     /\ behind' = (IF zip THEN Len(Header) ELSE 0)
     /\ UNCHANGED now
(* A line arrives. *)
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Log(s, n) == /\ out.on /\ n > 0
             /\ LET due == Due(out)  f == IF due THEN Rotated(Closed(files, out, behind), out) ELSE files
                    held == (IF due THEN (IF out.zip THEN Len(Header) ELSE 0) ELSE behind) + Len(s) * n
                IN /\ files' = (IF out.flush THEN Added(f, out.name, Times(s, n)) ELSE [f EXCEPT ![out.name].c = @ \o Times(s, n)])
                   /\ behind' = (IF out.flush THEN 0 ELSE held)
             /\ out' = [out EXCEPT !.last = IF Due(out) THEN Day(now) ELSE @] /\ UNCHANGED now
Close == /\ out.on /\ files' = Closed(files, out, behind) /\ out' = Off /\ behind' = 0 /\ UNCHANGED now
Tick(s) == s >= now /\ now' = s /\ UNCHANGED <<files, out, behind>>
Put(n, s, m) == files' = Set(files, n, [c |-> s, m |-> m, d |-> FALSE]) /\ UNCHANGED <<now, out, behind>>
Mkdir(n) == files' = Set(files, n, [c |-> <<>>, m |-> 0, d |-> TRUE]) /\ UNCHANGED <<now, out, behind>>

=============================================================================

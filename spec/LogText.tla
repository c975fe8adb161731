------------------------------ MODULE LogText ------------------------------
(* From what is streamed into a message to the line an output writes.         *)
EXTENDS Big, Bytes, Integers, Sequences, TLC
VARIABLES fmt,   \* the format of the output
          tf,    \* its format of times
          now,   \* the clock: [s, n]
          pend   \* <<thread, level>> -> the message that is being written there
Cal == INSTANCE Calendar WITH x <- 0, t <- 0, ev <- 0
tvars == <<fmt, tf, now, pend>>

(* ------------------------------------------------------------------ formats *)
Types == {67, 79, 68, 69, 70, 71, 76, 83, 84, 77}       \* C O D E F G L S T M
Tilde == 126
Lit(t) == [ty |-> 0, w |-> 0, tx |-> t]
RECURSIVE Parsed(_, _)
Parsed(f, i) ==
  IF i > Len(f) THEN <<>>
  ELSE IF f[i] # Tilde
  THEN LET q == FirstIn(f, {Tilde}, i)  j == IF q = 0 THEN Len(f) + 1 ELSE q
       IN <<Lit(SubSeq(f, i, j - 1))>> \o Parsed(f, j)
  ELSE LET d == FirstNotIn(f, 48..57, i + 1)             \* where the width ends
           y == IF d = 0 THEN 0 ELSE FirstIn(f, Types, d)
       IN IF y = 0 THEN <<>>                             \* an unfinished field is nothing
          ELSE <<[ty |-> f[y], w |-> Val(SubSeq(f, i + 1, d - 1)), tx |-> SubSeq(f, d, y - 1)]>> \o Parsed(f, y + 1)

Cut(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
Closing(t) == IF t = <<>> THEN <<>> ELSE CASE t[1] = 40 -> <<41>> [] t[1] = 91 -> <<93>> [] t[1] = 123 -> <<125>> [] OTHER -> <<>>
LevelNames == <<"Trace", "Debug", "Info", "Warning", "Error", "Mute">>
Mix == [c \in {"T", "D", "I", "W", "E", "M"} |-> CASE c = "T" -> 84 [] c = "D" -> 68 [] c = "I" -> 73 [] c = "W" -> 87 [] c = "E" -> 69 [] OTHER -> 77]
LevelText(k) == LET s == LevelNames[k + 1] IN <<Mix[SubSeq(s, 1, 1)]>> \o B(SubSeq(s, 2, Len(s)))

(* strftime with the fields for which numbers are printed. *)
RECURSIVE TimeText(_, _, _)
TimeText(f, k, i) ==
  IF i > Len(f) THEN <<>>
  ELSE IF f[i] # 37 \/ i = Len(f) THEN <<f[i]>> \o TimeText(f, k, i + 1)
  ELSE (CASE f[i + 1] = 89 -> Dec(k.y) [] f[i + 1] = 109 -> Pad0(k.m, 2) [] f[i + 1] = 100 -> Pad0(k.d, 2)
          [] f[i + 1] = 72 -> Pad0(k.hh, 2) [] f[i + 1] = 77 -> Pad0(k.mi, 2) [] f[i + 1] = 83 -> Pad0(k.ss, 2)
          [] OTHER -> <<37>>) \o TimeText(f, k, i + 2)

(* An item of the message: l level, s stream, c class, o object, d function, f file, n line, t text. *)
Ident == 256
Descr == 1024
Optional(tx, item, suffix) == IF item = <<>> THEN <<>> ELSE tx \o item \o suffix
FieldText(x, m, tfm, t) ==
  CASE x.ty = 0 -> x.tx
    [] x.ty = 67 -> Optional(x.tx, Cut(m.c, Ident), <<>>)
    [] x.ty = 79 -> Optional(x.tx, Cut(m.o, Descr), Closing(x.tx))
    [] x.ty = 68 -> Optional(x.tx, Cut(m.d, Ident), <<>>)
    [] x.ty = 69 -> Cut(m.t, 2048)
    [] x.ty = 70 -> Cut(m.f, Descr)
    [] x.ty = 71 -> Dec(m.n)
    [] x.ty = 76 -> LevelText(m.l)
    [] x.ty = 83 -> Cut(m.s, Ident)
    [] x.ty = 84 -> TimeText(tfm, Cal!Stamp(t.s, "UTC"), 1)
    [] x.ty = 77 -> Pad0(t.n \div 1000000, x.w)
RECURSIVE Fields(_, _, _, _)
Fields(xs, m, tfm, t) == IF xs = <<>> THEN <<>> ELSE FieldText(Head(xs), m, tfm, t) \o Fields(Tail(xs), m, tfm, t)
Line(m) == Fields(Parsed(fmt, 1), m, tf, now)

(* ----------------------------------------------------------------- messages *)
Room == 2046                     \* characters of a message, without the end of the line
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Blank(k) == [l |-> k, c |-> <<>>, o |-> <<>>, d |-> <<>>, f |-> <<>>, n |-> 0, t |-> <<>>]
Msg(th, k) == IF <<th, k>> \in DOMAIN pend THEN pend[<<th, k>>] ELSE Blank(k)
Written(m, s) == [m EXCEPT !.t = Cut(@ \o s, Room)]
Ended(m) == [m EXCEPT !.t = @ \o <<10>>]

Write(th, k, s) == pend' = Put(pend, <<th, k>>, Written(Msg(th, k), s)) /\ UNCHANGED <<fmt, tf, now>>
Note(th, k, what, v) == /\ pend' = Put(pend, <<th, k>>, CASE what = "c" -> [Msg(th, k) EXCEPT !.c = v] [] what = "o" -> [Msg(th, k) EXCEPT !.o = v]
                                                        [] what = "d" -> [Msg(th, k) EXCEPT !.d = v] [] what = "f" -> [Msg(th, k) EXCEPT !.f = v]
                                                        [] what = "n" -> [Msg(th, k) EXCEPT !.n = v])
                        /\ UNCHANGED <<fmt, tf, now>>
Finish(th, k) == pend' = [x \in (DOMAIN pend) \ {<<th, k>>} |-> pend[x]] /\ UNCHANGED <<fmt, tf, now>>

(* --------------------------------------------------------- values as text *)
RECURSIVE Shl(_, _)
Shl(m, x) == IF x = 0 THEN m ELSE IF x >= 13 THEN Shl(BMul(m, 8192), x - 13) ELSE Shl(BMul(m, 2), x - 1)
RECURSIVE Shr(_, _, _)                                       \* quotient and whether something was lost
Shr(m, x, lost) == IF x = 0 THEN [q |-> m, lost |-> lost]
                   ELSE IF x >= 13 THEN Shr(BQuo(m, 8192), x - 13, lost \/ BRem(m, 8192) # 0)
                   ELSE Shr(BQuo(m, 2), x - 1, lost \/ BRem(m, 2) # 0)
(* m * 2^x, correctly rounded to six decimals. *)
Micro(m, x) == LET n == BMul(BMul(m, 1000), 1000) IN
               IF x >= 0 THEN Shl(n, x)
               ELSE LET r == Shr(n, (-x) - 1, FALSE)  q == BQuo(r.q, 2) IN
                    IF BRem(r.q, 2) = 1 /\ (r.lost \/ BRem(q, 2) = 1) THEN BAdd(q, BInt(1)) ELSE q
FixedText(neg, m, x) == LET d == Cal!BDec(Micro(m, x))
                            p == IF Len(d) < 7 THEN Rep(48, 7 - Len(d)) \o d ELSE d
                        IN (IF neg THEN <<45>> ELSE <<>>) \o SubSeq(p, 1, Len(p) - 6) \o <<46>> \o SubSeq(p, Len(p) - 5, Len(p))
HexDigit(k) == IF k < 10 THEN 48 + k ELSE 87 + k
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE Hex(n \div 16) \o <<HexDigit(n % 16)>>
=============================================================================

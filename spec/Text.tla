-------------------------------- MODULE Text --------------------------------
\* Text helpers: splitting, joining, trimming, padding, case and the texts of values.
EXTENDS Big, Bytes
RECURSIVE SplitAt(_, _, _)
\* The pieces of s from position i on, cut at each (leftmost, not overlapping) occurrence of the delimiter d
SplitAt(s, d, i) == LET k == FindFrom(s, d, i) IN
                    IF k = 0 THEN <<SubSeq(s, i, Len(s))>> ELSE <<SubSeq(s, i, k - 1)>> \o SplitAt(s, d, k + Len(d))
Split(s, d) == SplitAt(s, d, 1)
Blank == {32, 9, 10, 11, 12, 13}
Trim(s) == IF LastNotIn(s, Blank) = 0 THEN <<>> ELSE SubSeq(s, FirstNotIn(s, Blank, 1), LastNotIn(s, Blank))
PadL(s, w, c) == Rep(c, IF Len(s) < w THEN w - Len(s) ELSE 0) \o s
PadR(s, w, c) == s \o Rep(c, IF Len(s) < w THEN w - Len(s) ELSE 0)
BDec(b) == LET RECURSIVE Go(_)
               Go(d) == IF Len(d) = 1 THEN Dec(d[1]) ELSE Go(Tail(d)) \o Pad0(d[1], 4)
           IN (IF b.neg THEN <<45>> ELSE <<>>) \o (IF b.d = <<>> THEN <<48>> ELSE Go(b.d))

\* m * 10^ex printed with up to prec significant digits, as a stream prints it by default
RECURSIVE Strip0(_)
Strip0(d) == IF Len(d) > 1 /\ d[Len(d)] = 48 THEN Strip0(SubSeq(d, 1, Len(d) - 1)) ELSE d
FloatText(m, ex, prec) ==
  IF m = 0 THEN <<48>>
  ELSE LET a == Dec(IF m < 0 THEN -m ELSE m)  X == Len(a) - 1 + ex  d == Strip0(a)  n == Len(d)
           sg == IF m < 0 THEN <<45>> ELSE <<>>
           ax == IF X < 0 THEN -X ELSE X
       IN sg \o (IF X < -4 \/ X >= prec
                 THEN <<d[1]>> \o (IF n > 1 THEN <<46>> \o Tail(d) ELSE <<>>) \o <<101, IF X < 0 THEN 45 ELSE 43>> \o Pad0(ax, 2)
                 ELSE IF X < 0 THEN <<48, 46>> \o Rep(48, -X - 1) \o d
                 ELSE IF n <= X + 1 THEN d \o Rep(48, X + 1 - n)
                 ELSE SubSeq(d, 1, X + 1) \o <<46>> \o SubSeq(d, X + 2, n))
=============================================================================

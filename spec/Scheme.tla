------------------------------- MODULE Scheme -------------------------------
\* Resource texts: [scheme "://"] specifier ["#" anchor] ["?" key "=" value {"&" key "=" value}]
\* A parsing expression grammar: every rule maps a text and a position to the position behind the longest match, or to 0.
EXTENDS Bytes
VARIABLES res, ev                      \* res: the parts the parser object holds
svars == <<res, ev>>

Alpha(c) == c \in 65..90 \/ c \in 97..122
Alnum(c) == Alpha(c) \/ IsDigit(c)
Space(c) == c = 32 \/ c \in 9..13
Has(s, i, c) == i <= Len(s) /\ s[i] = c

RECURSIVE Run(_, _, _)
\* Position of the first character at or behind i that is not of the class
Run(s, i, cls) == IF i > Len(s) THEN i
                  ELSE IF (CASE cls = "alpha" -> Alpha(s[i]) [] cls = "alnum" -> Alnum(s[i])
                             [] cls = "spec" -> s[i] # 63 /\ s[i] # 35                       \* not ? #
                             [] cls = "value" -> s[i] # 63 /\ s[i] # 38 /\ ~Space(s[i]))     \* not ? & blank
                       THEN Run(s, i + 1, cls) ELSE i
Some(s, i, cls) == LET j == Run(s, i, cls) IN IF j = i THEN 0 ELSE j
RECURSIVE PlusWords(_, _)
PlusWords(s, i) == IF Has(s, i, 43) /\ Some(s, i + 1, "alpha") # 0 THEN PlusWords(s, Some(s, i + 1, "alpha")) ELSE i
SchemeEnd(s, i) == LET a == Some(s, i, "alpha")  b == IF a = 0 THEN 0 ELSE PlusWords(s, a) IN
                   IF b # 0 /\ b + 2 <= Len(s) /\ SubSeq(s, b, b + 2) = <<58, 47, 47>> THEN b + 3 ELSE 0
AnchorEnd(s, i) == IF ~Has(s, i, 35) THEN 0
                   ELSE LET a == Some(s, i + 1, "alnum") IN
                        IF a = 0 THEN 0 ELSE IF Has(s, a, 45) /\ Some(s, a + 1, "alnum") # 0 THEN Some(s, a + 1, "alnum") ELSE a
RECURSIVE KeyTail(_, _)
KeyTail(s, i) == IF i <= Len(s) /\ Alnum(s[i]) THEN KeyTail(s, i + 1)
                 ELSE IF Has(s, i, 95) /\ i + 1 <= Len(s) /\ Alnum(s[i + 1]) THEN KeyTail(s, i + 2) ELSE i
KeyEnd(s, i) == LET a == Some(s, i, "alnum") IN IF a = 0 THEN 0 ELSE KeyTail(s, a)
PairEnd(s, i) == LET k == KeyEnd(s, i) IN IF k = 0 \/ ~Has(s, k, 61) THEN 0 ELSE Some(s, k + 1, "value")
PairOf(s, i) == LET k == KeyEnd(s, i) IN [k |-> SubSeq(s, i, k - 1), v |-> SubSeq(s, k + 1, PairEnd(s, i) - 1)]
RECURSIVE MorePairs(_, _)
MorePairs(s, i) == IF Has(s, i, 38) /\ PairEnd(s, i + 1) # 0
                   THEN LET r == MorePairs(s, PairEnd(s, i + 1)) IN [end |-> r.end, q |-> <<PairOf(s, i + 1)>> \o r.q]
                   ELSE [end |-> i, q |-> <<>>]
TypeOf(name) == CASE name = B("file://") -> "file" [] name = B("http://") -> "http" [] name = B("camera://") -> "camera"
                  [] name = B("gps://") -> "gps" [] OTHER -> "other"
Empty == [type |-> "other", name |-> <<>>, spec |-> <<>>, anchor |-> <<>>, q |-> <<>>]
Parse(s) ==
  LET a == IF SchemeEnd(s, 1) # 0 THEN SchemeEnd(s, 1) ELSE 1
      b == Some(s, a, "spec")
      c == IF b = 0 THEN 0 ELSE IF AnchorEnd(s, b) # 0 THEN AnchorEnd(s, b) ELSE b
      qs == c # 0 /\ Has(s, c, 63) /\ PairEnd(s, c + 1) # 0
      r == IF qs THEN MorePairs(s, PairEnd(s, c + 1)) ELSE [end |-> c, q |-> <<>>]
      name == LowerS(SubSeq(s, 1, a - 1))
  IN IF c = 0 \/ r.end # Len(s) + 1 THEN [ok |-> FALSE, p |-> Empty]
     ELSE [ok |-> TRUE, p |-> [type |-> TypeOf(name), name |-> name, spec |-> SubSeq(s, a, b - 1),
                               anchor |-> IF c > b THEN SubSeq(s, b + 1, c - 1) ELSE <<>>,
                               q |-> IF qs THEN <<PairOf(s, c + 1)>> \o r.q ELSE <<>>]]
PrintP(p) == p.name \o p.spec \o (IF p.anchor = <<>> THEN <<>> ELSE <<35>> \o p.anchor)
            \o (IF p.q = <<>> THEN <<>> ELSE <<63>> \o JoinWith([i \in 1..Len(p.q) |-> p.q[i].k \o <<61>> \o p.q[i].v], <<38>>))

\* What a parser object answers for a text; the parts of a rejected text are not specified.
DoParse(s, ok, got) == LET r == Parse(s) IN ok = r.ok /\ (r.ok => got = r.p) /\ res' = (IF r.ok THEN r.p ELSE Empty)
=============================================================================

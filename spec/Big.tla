-------------------------------- MODULE Big --------------------------------
\* Integers of any size. TLC's own integers have 32 bits, so a big number is a sign and base-10000 digits, least
\* significant first, without leading zeros: [neg |-> BOOLEAN, d |-> Seq(0..9999)]; zero is [neg |-> FALSE, d |-> <<>>].
EXTENDS Integers, Sequences
LOCAL Base == 10000

BZero == [neg |-> FALSE, d |-> <<>>]
RECURSIVE BTrim(_)
BTrim(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN BTrim(SubSeq(d, 1, Len(d) - 1)) ELSE d
BMk(neg, d) == LET t == BTrim(d) IN [neg |-> neg /\ t # <<>>, d |-> t]

RECURSIVE BMag(_)
BMag(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BMag(n \div Base)
\* A (small) integer as a big number.
BInt(n) == IF n < 0 THEN BMk(TRUE, BMag(-n)) ELSE BMk(FALSE, BMag(n))

LOCAL Dg(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
LOCAL MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE BCmpAt(_, _, _)
BCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF Dg(a, i) < Dg(b, i) THEN -1 ELSE IF Dg(a, i) > Dg(b, i) THEN 1 ELSE BCmpAt(a, b, i - 1)
MagCmp(a, b) == BCmpAt(a, b, MaxLen(a, b))

RECURSIVE MagAddFrom(_, _, _, _)
MagAddFrom(a, b, i, c) == IF i > MaxLen(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                          ELSE LET s == Dg(a, i) + Dg(b, i) + c IN <<s % Base>> \o MagAddFrom(a, b, i + 1, s \div Base)
MagAdd(a, b) == MagAddFrom(a, b, 1, 0)
RECURSIVE MagSubFrom(_, _, _, _)
MagSubFrom(a, b, i, c) == IF i > Len(a) THEN <<>>
                          ELSE LET s == Dg(a, i) - Dg(b, i) - c IN <<s % Base>> \o MagSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
MagSub(a, b) == BTrim(MagSubFrom(a, b, 1, 0))       \* a >= b

BCmp(x, y) == IF x.neg # y.neg THEN (IF x.neg THEN -1 ELSE 1)
              ELSE IF x.neg THEN MagCmp(y.d, x.d) ELSE MagCmp(x.d, y.d)
BLess(x, y) == BCmp(x, y) < 0
BLeq(x, y) == BCmp(x, y) <= 0
BNeg(x) == BMk(~x.neg, x.d)
BAbs(x) == BMk(FALSE, x.d)
BAdd(x, y) == IF x.neg = y.neg THEN BMk(x.neg, MagAdd(x.d, y.d))
              ELSE IF MagCmp(x.d, y.d) >= 0 THEN BMk(x.neg, MagSub(x.d, y.d)) ELSE BMk(y.neg, MagSub(y.d, x.d))
BSub(x, y) == BAdd(x, BNeg(y))

RECURSIVE MagMulFrom(_, _, _, _)
MagMulFrom(a, k, i, c) == IF i > Len(a) THEN BMag(c)
                          ELSE LET s == a[i] * k + c IN <<s % Base>> \o MagMulFrom(a, k, i + 1, s \div Base)
\* x * k for |k| <= 200000
BMul(x, k) == BMk(x.neg # (k < 0), MagMulFrom(x.d, IF k < 0 THEN -k ELSE k, 1, 0))
RECURSIVE MagDivFrom(_, _, _, _)
MagDivFrom(a, k, i, r) == IF i = 0 THEN <<>>
                          ELSE LET s == r * Base + a[i] IN MagDivFrom(a, k, i - 1, s % k) \o <<s \div k>>
RECURSIVE MagModFrom(_, _, _, _)
MagModFrom(a, k, i, r) == IF i = 0 THEN r ELSE MagModFrom(a, k, i - 1, (r * Base + a[i]) % k)
\* Quotient truncated towards zero and the remainder that goes with it, 0 < k <= 200000
BQuo(x, k) == BMk(x.neg, MagDivFrom(x.d, k, Len(x.d), 0))
BRem(x, k) == LET m == MagModFrom(x.d, k, Len(x.d), 0) IN IF x.neg THEN -m ELSE m
\* Quotient rounded down and remainder 0..k-1
BDiv(x, k) == LET q == BQuo(x, k) IN IF BRem(x, k) < 0 THEN BSub(q, BInt(1)) ELSE q
BMod(x, k) == BRem(x, k) % k
\* The value of a number small enough for TLC
RECURSIVE MagVal(_)
MagVal(d) == IF d = <<>> THEN 0 ELSE d[1] + Base * MagVal(Tail(d))
BVal(x) == IF x.neg THEN -MagVal(x.d) ELSE MagVal(x.d)
BSmall(x) == Len(x.d) <= 2 \/ (Len(x.d) = 3 /\ x.d[3] < 21)
\* Powers of ten
BE9(x) == BMul(BMul(x, 100000), 10000)
BQuoE9(x) == BQuo(BQuo(x, 100000), 10000)
BDivE9(x) == BDiv(BDiv(x, 100000), 10000)
=============================================================================

-------------------------------- MODULE BigMC --------------------------------
\* The big numbers against TLC's own integers, for all pairs of a boundary set, and against their algebraic laws.
EXTENDS Big, TLC
VARIABLE p
S == {0, 1, -1, 2, 9999, 10000, 10001, -9999, -10000, 99999999, 100000000, -100000001, 123456789, -987654321, 1000000000, -1000000000}
Init == p \in S \X S
Next == UNCHANGED p
Tr(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
Inv == LET a == p[1]  b == p[2]  A == BInt(a)  B == BInt(b) IN
  /\ BVal(A) = a
  /\ BVal(BAdd(A, B)) = a + b
  /\ BVal(BSub(A, B)) = a - b
  /\ BCmp(A, B) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
  /\ \A k \in {1, 2, 7, 1000, 99999, 100000, 200000} :
       /\ BQuo(A, k) = BInt(Tr(a, k)) /\ BRem(A, k) = a - k * Tr(a, k)
       /\ BDiv(A, k) = BInt(a \div k) /\ BMod(A, k) = a % k
       /\ BAdd(BMul(BQuo(A, k), k), BInt(BRem(A, k))) = A
       /\ BMul(BAdd(A, B), k) = BAdd(BMul(A, k), BMul(B, k))
       /\ BMul(A, -k) = BNeg(BMul(A, k))
  /\ BQuoE9(BE9(A)) = A /\ BDivE9(BAdd(BE9(A), BInt(999999999))) = A
Spec == Init /\ [][Next]_p
=============================================================================

------------------------------ MODULE Helpers ------------------------------
(* Small containers and helpers of icl_core: SearchableStack, Array2D, a       *)
(* wrapped vector, set relations, bit fields and enum names.                   *)
EXTENDS Bytes, Bitwise
VARIABLES stk, w, h, cells, vec, ev
vars == <<stk, w, h, cells, vec>>

(* --- stack: top is the last element --- *)
SObs(s) == [items |-> s, ritems |-> [i \in 1..Len(s) |-> s[Len(s) + 1 - i]], size |-> Len(s), empty |-> s = << >>, top |-> IF s = << >> THEN -1 ELSE s[Len(s)]]
SDo(a, s) == stk' = s /\ UNCHANGED <<w, h, cells, vec>> /\ ev' = a @@ SObs(s)
SPush(v) == SDo([op |-> "spush", v |-> v], Append(stk, v))
SPop == stk # << >> /\ SDo([op |-> "spop"], SubSeq(stk, 1, Len(stk) - 1))
STop(v) == stk # << >> /\ SDo([op |-> "stop", v |-> v], [stk EXCEPT ![Len(stk)] = v])
SClear == SDo([op |-> "sclear"], << >>)
\* Position (from the bottom, 0-based) of the first element equal to v, or the size.
SFind(v) == SDo([op |-> "sfind", v |-> v, pos |-> LET S == {i \in 1..Len(stk) : stk[i] = v} IN IF S = {} THEN Len(stk) ELSE MinOf(S) - 1], stk)

(* --- two-dimensional array, row-major --- *)
AObs(ww, hh, c) == [w |-> ww, h |-> hh, size |-> Len(c), empty |-> c = << >>, cells |-> c, rows |-> c, idx |-> [i \in 1..Len(c) |-> i - 1], iter |-> c]
ADo(a, ww, hh, c) == w' = ww /\ h' = hh /\ cells' = c /\ UNCHANGED <<stk, vec>> /\ ev' = a @@ AObs(ww, hh, c)
Resized(c, n, v) == [i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE v]
ANew(ww, hh, v) == ADo([op |-> "anew", aw |-> ww, ah |-> hh, v |-> v], ww, hh, Rep(v, ww * hh))
AResize(ww, hh, v) == ADo([op |-> "aresize", aw |-> ww, ah |-> hh, v |-> v], ww, hh, Resized(cells, ww * hh, v))
AAssign(ww, hh, v) == ADo([op |-> "aassign", aw |-> ww, ah |-> hh, v |-> v], ww, hh, Rep(v, ww * hh))
AFill(v) == ADo([op |-> "afill", v |-> v], w, h, Rep(v, w * h))
APut(x, y, v) == x < w /\ y < h /\ ADo([op |-> "aput", x |-> x, y |-> y, v |-> v], w, h, [cells EXCEPT ![y * w + x + 1] = v])
ACopy == ADo([op |-> "acopy"], w, h, cells)
ASwap(ww, hh, v) == ADo([op |-> "aswap", aw |-> ww, ah |-> hh, v |-> v], ww, hh, Rep(v, ww * hh))

(* --- wrapped vector --- *)
VDo(a, v) == vec' = v /\ UNCHANGED <<stk, w, h, cells>> /\ ev' = a @@ [items |-> v, ritems |-> [i \in 1..Len(v) |-> v[Len(v) + 1 - i]], at |-> v, size |-> Len(v), empty |-> v = << >>, throws |-> TRUE]
VPush(x) == VDo([op |-> "vpush", v |-> x], Append(vec, x))
VPop == vec # << >> /\ VDo([op |-> "vpop"], SubSeq(vec, 1, Len(vec) - 1))
VIns(p, n, x) == p <= Len(vec) /\ VDo([op |-> "vins", p |-> p, n |-> n, v |-> x], SubSeq(vec, 1, p) \o Rep(x, n) \o SubSeq(vec, p + 1, Len(vec)))
VErase(p, q) == p <= q /\ q <= Len(vec) /\ VDo([op |-> "verase", p |-> p, q |-> q], SubSeq(vec, 1, p) \o SubSeq(vec, q + 1, Len(vec)))
VResize(n, x) == VDo([op |-> "vresize", n |-> n, v |-> x], Resized(vec, n, x))
VAssign(n, x) == VDo([op |-> "vassign", n |-> n, v |-> x], Rep(x, n))
VClear == VDo([op |-> "vclear"], << >>)

(* --- pure functions --- *)
SetRel(a, b) == CASE a = b -> 0 [] b \subseteq a -> 1 [] a \subseteq b -> 2 [] a \cap b # {} -> 3 [] OTHER -> 4
Pure(r) == UNCHANGED vars /\ ev' = r
SetRelation(a, b) == Pure([op |-> "setrel", a |-> a, b |-> b, rel |-> SetRel(Range(a), Range(b))])
Bits(x, m) == Pure([op |-> "bits", x |-> x, m |-> m, set |-> x | m, clear |-> x - (x & m), isset |-> (x & m) # 0])
=============================================================================

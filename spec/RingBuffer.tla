----------------------------- MODULE RingBuffer -----------------------------
(***************************************************************************)
(* icl_core::RingBuffer.  Abstract level: a FIFO of at most `cap' items.   *)
(* One action per public operation; `ev' is the operation as an observer   *)
(* sees it: arguments, result and every view of the contents.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES cap,   \* capacity
          buf,   \* the stored items, oldest first
          ev     \* the last operation as observed (not part of the state proper)

Min(a, b) == IF a < b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

(* What an observer sees of a buffer with capacity c and contents b. *)
Obs(c, b) ==
  [cap |-> c, size |-> Len(b), free |-> c - Len(b), empty |-> Len(b) = 0, full |-> Len(b) = c,
   items |-> b, citems |-> b, at |-> b, hop |-> b, back |-> b, seg |-> b,
   espace |-> c - Len(b), views |-> TRUE, atend |-> TRUE]

Do(args, exc, ret, c, b) ==
  /\ cap' = c
  /\ buf' = b
  /\ ev' = args @@ [exc |-> exc, ret |-> ret] @@ Obs(c, b)

Same(args, exc, ret) == Do(args, exc, ret, cap, buf)

New(c) == Do([op |-> "new", c |-> c], FALSE, 0, c, << >>)

Write(v, ow) ==
  LET a == [op |-> "write", v |-> v, ow |-> ow] IN
  IF Len(buf) < cap THEN Do(a, FALSE, 0, cap, Append(buf, v))
  ELSE IF ow /\ cap > 0 THEN Do(a, FALSE, 0, cap, Append(Tail(buf), v))
  ELSE Same(a, TRUE, 0)

Read == LET a == [op |-> "read"] IN
  IF buf = << >> THEN Same(a, TRUE, 0) ELSE Do(a, FALSE, Head(buf), cap, Tail(buf))

Front == LET a == [op |-> "front"] IN
  IF buf = << >> THEN Same(a, TRUE, 0) ELSE Same(a, FALSE, Head(buf))

Skip == LET a == [op |-> "skip"] IN
  IF buf = << >> THEN Same(a, TRUE, 0) ELSE Do(a, FALSE, 0, cap, Tail(buf))

SkipN(n) == Do([op |-> "skipn", n |-> n], FALSE, 0, cap, Drop(buf, Min(n, Len(buf))))

Clear == Do([op |-> "clear"], FALSE, 0, cap, << >>)

SetAt(k, v) == LET a == [op |-> "set", k |-> k, v |-> v] IN
  IF k < Len(buf) THEN Do(a, FALSE, 0, cap, [buf EXCEPT ![k + 1] = v]) ELSE Same(a, TRUE, 0)

(* Only the newest items survive a reduction of the capacity. *)
SetCapacity(c) == Do([op |-> "setcap", c |-> c], FALSE, 0, c, Last(buf, Min(c, Len(buf))))

(* The free space is filled with v, v+1, ... through the segment pointers,  *)
(* then n of these items are claimed.                                       *)
FakeWrite(n, v) ==
  LET k == Min(n, cap - Len(buf)) IN
  Do([op |-> "fake", n |-> n, v |-> v], FALSE, 0, cap, buf \o [i \in 1..k |-> v + i - 1])

Copy == Same([op |-> "copy"], FALSE, 0)
Assign(c, n) == Same([op |-> "assign", c |-> c, n |-> n], FALSE, 0)

Init == cap = 0 /\ buf = << >> /\ ev = [op |-> "init"]

TypeOK == Len(buf) <= cap
=============================================================================

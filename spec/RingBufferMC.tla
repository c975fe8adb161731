---------------------------- MODULE RingBufferMC ----------------------------
(***************************************************************************)
(* Exhaustive model.  `arr', `wr', `rd' are the implementation-level ring  *)
(* (one slot more than the capacity); the refinement invariant says that   *)
(* the live window of the ring is the abstract FIFO.  Every transition is  *)
(* printed and later replayed on the real class, so every (capacity, read  *)
(* position, write position) combination is reached there.                 *)
(***************************************************************************)
EXTENDS RingBuffer, Json
CONSTANTS Caps, Vals, MaxN
VARIABLES arr, wr, rd
avars == <<cap, buf>>
ivars == <<arr, wr, rd>>

N == Len(arr)
IEmpty == wr = rd
ISize == IF wr >= rd THEN wr - rd ELSE wr + N - rd
IFull == (wr + 1) % N = rd
Window == [i \in 1..ISize |-> arr[((rd + i - 1) % N) + 1]]
Refines == N = cap + 1 /\ Window = buf

Live == cap >= 0
Unch == UNCHANGED ivars
MNew(c) == cap = -1 /\ New(c) /\ arr' = [i \in 1..(c + 1) |-> 0] /\ wr' = 0 /\ rd' = 0
MWrite(v, ow) == Live /\ Write(v, ow)
  /\ IF IFull /\ (~ow \/ cap = 0) THEN Unch
     ELSE /\ arr' = [arr EXCEPT ![wr + 1] = v] /\ wr' = (wr + 1) % N
          /\ rd' = IF IFull THEN (rd + 1) % N ELSE rd
MRead == Live /\ Read /\ UNCHANGED <<arr, wr>> /\ rd' = IF IEmpty THEN rd ELSE (rd + 1) % N
MFront == Live /\ Front /\ Unch
MSkip == Live /\ Skip /\ UNCHANGED <<arr, wr>> /\ rd' = IF IEmpty THEN rd ELSE (rd + 1) % N
MSkipN(n) == Live /\ SkipN(n) /\ UNCHANGED arr
  /\ IF n >= ISize THEN wr' = 0 /\ rd' = 0 ELSE wr' = wr /\ rd' = (rd + n) % N
MClear == Live /\ Clear /\ UNCHANGED arr /\ wr' = 0 /\ rd' = 0
MSetAt(k, v) == Live /\ SetAt(k, v) /\ UNCHANGED <<wr, rd>>
  /\ arr' = IF k < ISize THEN [arr EXCEPT ![((rd + k) % N) + 1] = v] ELSE arr
MSetCap(c) == Live /\ SetCapacity(c)
  /\ LET k == Min(c, ISize) IN
     arr' = [i \in 1..(c + 1) |-> IF i <= k THEN Window[ISize - k + i] ELSE 0] /\ wr' = k /\ rd' = 0
MFake(n, v) == Live /\ FakeWrite(n, v) /\ UNCHANGED rd
  /\ LET f == N - 1 - ISize IN
     /\ arr' = [i \in 1..N |-> LET o == (i - 1 - wr + N) % N IN IF o < f THEN v + o ELSE arr[i]]
     /\ wr' = (wr + Min(n, f)) % N
MCopy == Live /\ Copy /\ Unch
MAssign(c, n) == Live /\ Assign(c, n) /\ Unch

MInit == cap = -1 /\ buf = << >> /\ ev = [op |-> "init"] /\ arr = <<0>> /\ wr = 0 /\ rd = 0
MNext ==
  \/ \E c \in Caps : MNew(c)
  \/ \E v \in Vals, ow \in BOOLEAN : MWrite(v, ow)
  \/ MRead \/ MFront \/ MSkip \/ MClear \/ MCopy
  \/ \E n \in 0..MaxN : MSkipN(n)
  \/ \E n \in 0..MaxN : MFake(n, 1)
  \/ \E k \in 0..2, v \in Vals : MSetAt(k, v)
  \/ \E c \in Caps : MSetCap(c)
  \/ \E c \in Caps, n \in {0, 2} : MAssign(c, n)
MSpec == MInit /\ [][MNext]_<<cap, buf, ev, arr, wr, rd>>

(* Slots outside the live window are don't-care: hidden from the state. *)
View == <<cap, buf, wr, rd>>
Inv == Live => Refines /\ TypeOK /\ (IEmpty <=> buf = << >>) /\ (IFull <=> Len(buf) = cap)

Key == [c |-> cap, b |-> buf, w |-> wr, r |-> rd]
PrintEdge == PrintT(ToJson([E |-> [s |-> Key, e |-> ev', t |-> Key']]))
=============================================================================

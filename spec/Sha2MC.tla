------------------------------- MODULE Sha2MC -------------------------------
(* The padding machine: a message which arrives in parts is cut into blocks  *)
(* while it arrives; a buffer holds at most one block.  Theorem: for every   *)
(* way to split a message the blocks are those of the padded message as the  *)
(* standard defines it.  Scaled down: blocks of B bytes, the length in the   *)
(* last S; byte i of the message is i.  A full buffer may be processed at    *)
(* once or only when the next byte arrives (the library does both).          *)
EXTENDS Sha2
CONSTANTS B, S, MaxLen
VARIABLES len, buf, blocks, done, how
vars == <<len, buf, blocks, done, how>>
Init == len = 0 /\ buf = <<>> /\ blocks = <<>> /\ done = FALSE /\ how = <<0, 0>>
Msg(n) == [i \in 1..n |-> i]
RECURSIVE Eager(_, _, _)
Eager(bf, bl, x) ==                            \* memcpy in runs up to the end of the block
  IF Len(x) >= B - Len(bf) THEN Eager(<<>>, Append(bl, bf \o SubSeq(x, 1, B - Len(bf))), SubSeq(x, B - Len(bf) + 1, Len(x)))
  ELSE <<bf \o x, bl>>
RECURSIVE Lazy(_, _, _)
Lazy(bf, bl, x) ==                             \* byte by byte
  IF x = <<>> THEN <<bf, bl>>
  ELSE IF Len(bf) = B THEN Lazy(<<Head(x)>>, Append(bl, bf), Tail(x))
  ELSE Lazy(Append(bf, Head(x)), bl, Tail(x))
Feed(k, lazy) ==
  /\ ~done /\ len + k <= MaxLen
  /\ LET x == [i \in 1..k |-> len + i]
         r == IF lazy THEN Lazy(buf, blocks, x) ELSE Eager(buf, blocks, x) IN
     buf' = r[1] /\ blocks' = r[2]
  /\ len' = len + k /\ how' = <<k, IF lazy THEN 1 ELSE 2>> /\ UNCHANGED done
Fin ==
  /\ ~done /\ done' = TRUE /\ buf' = <<>> /\ UNCHANGED len /\ how' = <<0, 3>>
  /\ LET full == Len(buf) = B
         bl == IF full THEN Append(blocks, buf) ELSE blocks
         t == IF full THEN <<128>> ELSE Append(buf, 128)
         size == SubSeq(Bits(Small(len)), 17 - S, 16) IN
     blocks' = IF Len(t) <= B - S THEN Append(bl, t \o Zeros(B - S - Len(t)) \o size)
               ELSE bl \o <<t \o Zeros(B - Len(t)), Zeros(B - S) \o size>>
Next == Fin \/ \E k \in 0..MaxLen : \E z \in BOOLEAN : Feed(k, z)
Spec == Init /\ [][Next]_vars
Standard == done => blocks = Blocks(Padded(Msg(len), Small(len), "sha256", B, S), B)
Sane == ~done => FlattenSeq(blocks) \o buf = Msg(len)
View == <<len, buf, blocks, done>>
(* The function itself: the example messages of the standard.                *)
Abc == <<97, 98, 99>>
ASSUME SubSeq(Digest(Abc, "sha224"), 1, 8) = <<50, 51, 48, 57, 55, 100, 50, 50>>          \* 23097d22
ASSUME SubSeq(Digest(Abc, "sha256"), 1, 8) = <<98, 97, 55, 56, 49, 54, 98, 102>>          \* ba7816bf
ASSUME SubSeq(Digest(Abc, "sha384"), 1, 8) = <<99, 98, 48, 48, 55, 53, 51, 102>>          \* cb00753f
ASSUME SubSeq(Digest(Abc, "sha512"), 1, 8) = <<100, 100, 97, 102, 51, 53, 97, 49>>        \* ddaf35a1
ASSUME \A v \in Variants : Len(Digest(<<>>, v)) = 4 * Limbs(v) * WordsOut(v)
=============================================================================

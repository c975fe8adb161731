-------------------------------- MODULE Sha2 --------------------------------
(* FIPS 180-4: the digests of SHA-224, SHA-256, SHA-384 and SHA-512.         *)
(* A word is a sequence of 16 bit limbs, the most significant one first      *)
(* (TLC counts with 32 bit): two limbs for SHA-224/256, four for             *)
(* SHA-384/512.  A message is a sequence of bytes.                           *)
(* The constants are the fractional parts of the cube roots (K) and square   *)
(* roots (IV) of the first primes, computed for this file, not copied.       *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise, TLC
Variants == {"sha224", "sha256", "sha384", "sha512"}
Wide(v) == v \in {"sha384", "sha512"}
Limbs(v) == IF Wide(v) THEN 4 ELSE 2
BlockBytes(v) == IF Wide(v) THEN 128 ELSE 64
SizeBytes(v) == IF Wide(v) THEN 16 ELSE 8      \* the length at the end of the last block
WordsOut(v) == CASE v = "sha224" -> 7 [] v = "sha256" -> 8 [] v = "sha384" -> 6 [] v = "sha512" -> 8
K32 == <<
    <<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>, <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>,
    <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>, <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>,
    <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>, <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>,
    <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>, <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>,
    <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>, <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>,
    <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>, <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>,
    <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>, <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>,
    <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>, <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>> >>
K64 == <<
    <<17034,12184,55080,44578>>, <<28983,17553,9199,26061>>, <<46528,64463,60493,15151>>, <<59829,56229,33161,56252>>,
    <<14678,49755,62280,46392>>, <<23025,4593,46597,53273>>, <<37439,33444,44825,20379>>, <<43804,24277,55917,33048>>,
    <<55303,43672,41731,578>>, <<4739,23297,17776,28606>>, <<9265,34238,20196,45708>>, <<21772,32195,54783,46306>>,
    <<29374,23924,62075,35183>>, <<32990,45566,15126,38577>>, <<39900,1703,9671,4661>>, <<49563,61812,53097,9876>>,
    <<58523,27073,40689,19154>>, <<61374,18310,14415,9699>>, <<4033,40390,35724,54709>>, <<9228,41420,30636,40037>>,
    <<11753,11375,22827,629>>, <<19060,33962,28326,58499>>, <<23728,43484,48449,64468>>, <<30457,35034,33553,21429>>,
    <<38974,20818,61030,57259>>, <<43057,50797,11700,12816>>, <<45059,10184,39163,8511>>, <<48985,32711,48879,3812>>,
    <<50912,3059,15784,36802>>, <<54695,37191,37642,42789>>, <<1738,25425,57347,33391>>, <<5161,10599,2574,28272>>,
    <<10167,2693,18130,12284>>, <<11803,8504,23590,51494>>, <<19756,28156,23236,10989>>, <<21304,3347,40341,46047>>,
    <<25866,29524,35759,25566>>, <<30314,2747,15479,45736>>, <<33218,51502,18413,44774>>, <<37490,11397,5250,13627>>,
    <<41663,59553,19697,868>>, <<43034,26187,48194,12289>>, <<49739,35696,53496,38801>>, <<51052,20899,1620,48688>>,
    <<53650,59417,55023,21016>>, <<54937,1572,21861,43280>>, <<62478,13701,22385,8234>>, <<4202,41072,12987,53688>>,
    <<6564,49430,47314,53448>>, <<7735,27656,20801,43859>>, <<10056,30540,57230,60313>>, <<13488,48309,57755,18600>>,
    <<14620,3251,50633,23139>>, <<20184,43594,58177,35531>>, <<23452,51791,30563,58227>>, <<26670,28659,54962,47267>>,
    <<29839,33518,24047,45820>>, <<30885,25455,17175,12128>>, <<33992,30740,41456,43890>>, <<36039,520,6756,14828>>,
    <<37054,65530,9059,7720>>, <<42064,27883,56962,48617>>, <<48889,41975,45766,30997>>, <<50801,30962,58226,21291>>,
    <<51751,16078,59942,24988>>, <<53638,47303,8640,49671>>, <<60122,32214,52704,60190>>, <<62845,20351,61038,53624>>,
    <<1776,26538,29207,28602>>, <<2659,32197,41672,39078>>, <<4415,38916,48889,3502>>, <<7025,2869,4892,18203>>,
    <<10459,30709,8964,32132>>, <<13002,43899,16583,9363>>, <<15518,48650,5577,48828>>, <<17181,26564,39952,3404>>,
    <<19653,54462,52030,17078>>, <<22911,10652,64613,32298>>, <<24523,28587,15062,64236>>, <<27716,6540,19015,22551>> >>
IV == [sha224 |-> <<
    <<49413,40664>>, <<13948,54535>>, <<12400,56599>>, <<63246,22841>>, <<65472,2865>>, <<26712,5393>>, <<25849,36775>>, <<48890,20388>> >>,
  sha256 |-> <<
    <<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>, <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>> >>,
  sha384 |-> <<
    <<52155,40285,49413,40664>>, <<25242,10538,13948,54535>>, <<37209,346,12400,56599>>, <<5423,60632,63246,22841>>,
    <<26419,9831,65472,2865>>, <<36532,19079,26712,5393>>, <<56076,11789,25849,36775>>, <<18357,18461,48890,20388>> >>,
  sha512 |-> <<
    <<27145,58983,62396,51464>>, <<47975,44677,33994,42811>>, <<15470,62322,65172,63531>>, <<42319,62778,24349,14065>>,
    <<20750,21119,44518,33489>>, <<39685,26764,11070,27679>>, <<8067,55723,64321,48491>>, <<23520,52505,4990,8569>> >>]

(* Words.                                                                    *)
P2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Pow2(n) == IF n = 0 THEN 1 ELSE P2[n]
Cut(hi, lo, r) == IF r = 0 THEN lo ELSE (lo \div P2[r]) + (hi % P2[r]) * Pow2(16 - r)   \* 16 bits of hi:lo, r bits from the right
Rotr(x, n) ==
  LET N == Len(x)  q == n \div 16  r == n % 16
      At(i) == x[((i + N - 1) % N) + 1] IN
  IF N = 2 THEN <<Cut(At(2 - q), At(3 - q), r), Cut(At(3 - q), At(4 - q), r)>>
  ELSE <<Cut(At(4 - q), At(5 - q), r), Cut(At(5 - q), At(6 - q), r), Cut(At(6 - q), At(7 - q), r), Cut(At(7 - q), At(8 - q), r)>>
Shr(x, n) ==                                   \* n < 16
  IF Len(x) = 2 THEN <<Cut(0, x[1], n), Cut(x[1], x[2], n)>>
  ELSE <<Cut(0, x[1], n), Cut(x[1], x[2], n), Cut(x[2], x[3], n), Cut(x[3], x[4], n)>>
Xor2(x, y) == IF Len(x) = 2 THEN <<x[1] ^^ y[1], x[2] ^^ y[2]>> ELSE <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>
Xor3(x, y, z) == Xor2(x, Xor2(y, z))
ChL(x, y, z) == (x & y) ^^ ((65535 - x) & z)
MajL(x, y, z) == ((x & y) ^^ (x & z)) ^^ (y & z)
Ch(x, y, z) == IF Len(x) = 2 THEN <<ChL(x[1], y[1], z[1]), ChL(x[2], y[2], z[2])>>
               ELSE <<ChL(x[1], y[1], z[1]), ChL(x[2], y[2], z[2]), ChL(x[3], y[3], z[3]), ChL(x[4], y[4], z[4])>>
Maj(x, y, z) == IF Len(x) = 2 THEN <<MajL(x[1], y[1], z[1]), MajL(x[2], y[2], z[2])>>
                ELSE <<MajL(x[1], y[1], z[1]), MajL(x[2], y[2], z[2]), MajL(x[3], y[3], z[3]), MajL(x[4], y[4], z[4])>>
Carry(s) ==                                    \* limbs which may exceed 16 bits -> the word they stand for, modulo its size
  IF Len(s) = 2 THEN <<(s[1] + s[2] \div 65536) % 65536, s[2] % 65536>>
  ELSE LET c3 == s[3] + s[4] \div 65536
           c2 == s[2] + c3 \div 65536
           c1 == s[1] + c2 \div 65536 IN <<c1 % 65536, c2 % 65536, c3 % 65536, s[4] % 65536>>
Sum2(x, y) == IF Len(x) = 2 THEN <<x[1] + y[1], x[2] + y[2]>> ELSE <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
Add2(x, y) == Carry(Sum2(x, y))

(* The functions of section 4.1.                                             *)
SIG0(x) == IF Len(x) = 2 THEN Xor3(Rotr(x, 2), Rotr(x, 13), Rotr(x, 22)) ELSE Xor3(Rotr(x, 28), Rotr(x, 34), Rotr(x, 39))
SIG1(x) == IF Len(x) = 2 THEN Xor3(Rotr(x, 6), Rotr(x, 11), Rotr(x, 25)) ELSE Xor3(Rotr(x, 14), Rotr(x, 18), Rotr(x, 41))
sig0(x) == IF Len(x) = 2 THEN Xor3(Rotr(x, 7), Rotr(x, 18), Shr(x, 3)) ELSE Xor3(Rotr(x, 1), Rotr(x, 8), Shr(x, 7))
sig1(x) == IF Len(x) = 2 THEN Xor3(Rotr(x, 17), Rotr(x, 19), Shr(x, 10)) ELSE Xor3(Rotr(x, 19), Rotr(x, 61), Shr(x, 6))

(* Section 6.2.2 / 6.4.2: one block.                                         *)
Upto(n) == [i \in 1..n |-> i]
Idx64 == Upto(64)
Idx80 == Upto(80)
WordAt(b, i, v) ==                             \* the i-th word (from 1) of a block of bytes
  LET o == (i - 1) * 2 * Limbs(v)  L(k) == b[o + 2 * k - 1] * 256 + b[o + 2 * k] IN
  IF Wide(v) THEN <<L(1), L(2), L(3), L(4)>> ELSE <<L(1), L(2)>>
Schedule(b, v) ==
  FoldLeft(LAMBDA w, t : Append(w, IF t <= 16 THEN WordAt(b, t, v)
                                   ELSE Carry(Sum2(Sum2(sig1(w[t - 2]), w[t - 7]), Sum2(sig0(w[t - 15]), w[t - 16])))),
           <<>>, IF Wide(v) THEN Idx80 ELSE Idx64)
Round(s, k, w) ==                              \* s = <<a, ..., h>>
  LET T1 == TLCEval(Sum2(Sum2(s[8], SIG1(s[5])), Sum2(Ch(s[5], s[6], s[7]), Sum2(k, w))))
      T2 == Sum2(SIG0(s[1]), Maj(s[1], s[2], s[3])) IN
  <<Carry(Sum2(T1, T2)), s[1], s[2], s[3], Carry(Sum2(s[4], T1)), s[5], s[6], s[7]>>
Compress(h, b, v) ==
  LET W == TLCEval(Schedule(b, v))
      r == TLCEval(FoldLeft(LAMBDA s, t : Round(s, IF Wide(v) THEN K64[t] ELSE K32[t], W[t]), h, IF Wide(v) THEN Idx80 ELSE Idx64)) IN
  TLCEval([i \in 1..8 |-> Add2(h[i], r[i])])

(* Section 5.1: the padding; n is the length of the whole message in bytes   *)
(* as base 2^16 limbs (the most significant first), m its last part.         *)
Zeros(n) == [i \in 1..n |-> 0]
Bits(n) ==                                     \* limbs of 8 * n, as 16 bytes
  LET N == Len(n)
      t == [i \in 1..8 |-> LET j == i - (8 - N) IN IF j < 1 THEN 0 ELSE n[j]]
      x == [i \in 1..8 |-> ((t[i] * 8) % 65536) + (IF i < 8 THEN (t[i + 1] * 8) \div 65536 ELSE 0)] IN
  [i \in 1..16 |-> IF i % 2 = 1 THEN x[(i + 1) \div 2] \div 256 ELSE x[i \div 2] % 256]
Padded(m, n, v, B, S) ==                       \* blocks of B bytes, the last S of them the length
  LET k == ((2 * B) - 1 - S - (Len(m) % B)) % B IN
  m \o <<128>> \o Zeros(k) \o SubSeq(Bits(n), 17 - S, 16)
Blocks(m, B) == [i \in 1..(Len(m) \div B) |-> SubSeq(m, (i - 1) * B + 1, i * B)]
Small(n) == <<n \div 65536, n % 65536>>

(* A digest as the library shows it: lower case hexadecimal digits (codes).  *)
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex16(x) == <<Digit(x \div 4096), Digit((x \div 256) % 16), Digit((x \div 16) % 16), Digit(x % 16)>>
HexOf(h, v) == FlattenSeq([i \in 1..WordsOut(v) |-> FlattenSeq([j \in 1..Limbs(v) |-> Hex16(h[i][j])])])
Finish(h, m, n, v) ==                          \* the digest, from the chain value h of all blocks before m
  HexOf(FoldLeft(LAMBDA a, b : Compress(a, b, v), h, Blocks(Padded(m, n, v, BlockBytes(v), SizeBytes(v)), BlockBytes(v))), v)
Digest(m, v) == Finish(IV[v], m, Small(Len(m)), v)
(* Very long messages: the chain value after 2^29 and after 2^32 zero bytes  *)
(* (computed by an independent program and checked against a third one).    *)
Z29 == [
  sha224 |-> <<<<8006,59223>>, <<5625,23233>>, <<62720,57575>>, <<61465,63407>>, <<29727,53868>>, <<5745,40196>>, <<13326,63320>>, <<24213,62944>>>>,
  sha256 |-> <<<<49556,21270>>, <<3792,15888>>, <<19984,25833>>, <<12171,1618>>, <<58663,29869>>, <<1630,41513>>, <<51651,49734>>, <<3596,49266>>>>,
  sha384 |-> <<<<17949,1172,62030,29295>>, <<11277,563,47862,33202>>, <<26889,50800,1392,30432>>, <<56679,25977,42392,40174>>, <<11483,40055,14197,44025>>, <<39602,37039,43733,43574>>, <<58095,57313,51726,59868>>, <<9393,6294,50390,19361>>>>,
  sha512 |-> <<<<61443,49015,7210,24489>>, <<64831,65060,48971,12388>>, <<51663,9721,23523,52509>>, <<46145,1154,61776,36312>>, <<28474,45662,14928,2613>>, <<18359,50011,22041,5853>>, <<45227,21328,11493,26927>>, <<37610,10460,9482,56344>>>>]
Z32 == [
  sha224 |-> <<<<54066,25737>>, <<10710,26374>>, <<52153,37048>>, <<59749,16754>>, <<22044,2861>>, <<38241,19987>>, <<57335,34936>>, <<17873,59543>>>>,
  sha256 |-> <<<<36862,18664>>, <<65128,5525>>, <<1748,39326>>, <<58033,44108>>, <<15963,38204>>, <<54776,48021>>, <<59400,11598>>, <<36341,59802>>>>,
  sha384 |-> <<<<30546,23214,26382,15440>>, <<23125,45280,13090,57314>>, <<26930,50002,43976,25253>>, <<7040,30305,18201,44879>>, <<24897,32907,12434,10833>>, <<7777,59855,17853,37945>>, <<3484,60154,3715,10276>>, <<65324,26780,37333,43081>>>>,
  sha512 |-> <<<<44437,63356,24500,37785>>, <<64323,8647,44214,3198>>, <<55809,26794,4900,18040>>, <<50758,17825,38227,62743>>, <<53506,60092,46813,10466>>, <<5167,40326,4940,7654>>, <<13123,48798,29755,54183>>, <<56628,44671,58251,18636>>>>]

(* The object: a message is fed in parts, finished, read.                    *)
(* z: how many zero bytes came first, as an exponent (0 = none).             *)
Fresh(v) == [v |-> v, z |-> 0, m |-> <<>>, done |-> FALSE]
StartOf(s) == CASE s.z = 0 -> IV[s.v] [] s.z = 29 -> Z29[s.v] [] s.z = 32 -> Z32[s.v]
SizeOf(s) == CASE s.z = 0 -> Small(Len(s.m)) [] s.z = 29 -> Small(536870912 + Len(s.m)) [] s.z = 32 -> <<1>> \o Small(Len(s.m))
DigestOf(s) == Finish(StartOf(s), s.m, SizeOf(s), s.v)
=============================================================================

-------------------------------- MODULE Sha2 --------------------------------
(***************************************************************************)
(* SHA-256 and SHA-512 (FIPS 180-4).  Words are 16-bit limb sequences      *)
(* (Words.tla).  The initial values and the round constants are derived    *)
(* from their definition: the first 32/64 bits of the fractional parts of  *)
(* the square and cube roots of the first primes.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigNat, Words, TLC

IsPrime(n) == n > 1 /\ \A d \in 2..(n - 1) : d * d <= n => n % d # 0
RECURSIVE Primes(_, _)
Primes(k, from) == IF k = 0 THEN <<>> ELSE IF IsPrime(from) THEN <<from>> \o Primes(k - 1, from + 1) ELSE Primes(k, from + 1)

RECURSIVE RootBits(_, _, _, _)
\* floor of the k-th root (k = 2, 3) of n by bits from bit b down
RootBits(n, k, b, acc) ==
  IF b < 0 THEN acc
  ELSE LET t == Add(acc, Pow2(b))
           pw == IF k = 2 THEN Mul(t, t) ELSE Mul(Mul(t, t), t)
       IN RootBits(n, k, b - 1, IF Leq(pw, n) THEN t ELSE acc)
WordOfBits(bs) == [i \in 1..(Len(bs) \div 16) |->
   LET g(j) == bs[16 * (i - 1) + j + 1] * (2 ^ j)
   IN g(0)+g(1)+g(2)+g(3)+g(4)+g(5)+g(6)+g(7)+g(8)+g(9)+g(10)+g(11)+g(12)+g(13)+g(14)+g(15)]
\* the first w fractional bits of the k-th root of prime p
RootFrac(p, k, w) == TLCEval(WordOfBits(ToBits(RootBits(Mul(NatOf(p), Pow2(k * w)), k, w + 8, <<>>), w)))

\* the derived tables, and the same as literals (TLC would re-derive them at each use; OverridesCheck.tla compares)
First80 == Primes(80, 2)
DK512 == [i \in 1..80 |-> RootFrac(First80[i], 3, 64)]
DK256 == [i \in 1..64 |-> RootFrac(First80[i], 3, 32)]
DH512 == [i \in 1..8 |-> RootFrac(First80[i], 2, 64)]
DH256 == [i \in 1..8 |-> RootFrac(First80[i], 2, 32)]
K512 == <<<<44578, 55080, 12184, 17034>>,
  <<26061, 9199, 17553, 28983>>,
  <<15151, 60493, 64463, 46528>>,
  <<56252, 33161, 56229, 59829>>,
  <<46392, 62280, 49755, 14678>>,
  <<53273, 46597, 4593, 23025>>,
  <<20379, 44825, 33444, 37439>>,
  <<33048, 55917, 24277, 43804>>,
  <<578, 41731, 43672, 55303>>,
  <<28606, 17776, 23297, 4739>>,
  <<45708, 20196, 34238, 9265>>,
  <<46306, 54783, 32195, 21772>>,
  <<35183, 62075, 23924, 29374>>,
  <<38577, 15126, 45566, 32990>>,
  <<4661, 9671, 1703, 39900>>,
  <<9876, 53097, 61812, 49563>>,
  <<19154, 40689, 27073, 58523>>,
  <<9699, 14415, 18310, 61374>>,
  <<54709, 35724, 40390, 4033>>,
  <<40037, 30636, 41420, 9228>>,
  <<629, 22827, 11375, 11753>>,
  <<58499, 28326, 33962, 19060>>,
  <<64468, 48449, 43484, 23728>>,
  <<21429, 33553, 35034, 30457>>,
  <<57259, 61030, 20818, 38974>>,
  <<12816, 11700, 50797, 43057>>,
  <<8511, 39163, 10184, 45059>>,
  <<3812, 48879, 32711, 48985>>,
  <<36802, 15784, 3059, 50912>>,
  <<42789, 37642, 37191, 54695>>,
  <<33391, 57347, 25425, 1738>>,
  <<28272, 2574, 10599, 5161>>,
  <<12284, 18130, 2693, 10167>>,
  <<51494, 23590, 8504, 11803>>,
  <<10989, 23236, 28156, 19756>>,
  <<46047, 40341, 3347, 21304>>,
  <<25566, 35759, 29524, 25866>>,
  <<45736, 15479, 2747, 30314>>,
  <<44774, 18413, 51502, 33218>>,
  <<13627, 5250, 11397, 37490>>,
  <<868, 19697, 59553, 41663>>,
  <<12289, 48194, 26187, 43034>>,
  <<38801, 53496, 35696, 49739>>,
  <<48688, 1620, 20899, 51052>>,
  <<21016, 55023, 59417, 53650>>,
  <<43280, 21861, 1572, 54937>>,
  <<8234, 22385, 13701, 62478>>,
  <<53688, 12987, 41072, 4202>>,
  <<53448, 47314, 49430, 6564>>,
  <<43859, 20801, 27656, 7735>>,
  <<60313, 57230, 30540, 10056>>,
  <<18600, 57755, 48309, 13488>>,
  <<23139, 50633, 3251, 14620>>,
  <<35531, 58177, 43594, 20184>>,
  <<58227, 30563, 51791, 23452>>,
  <<47267, 54962, 28659, 26670>>,
  <<45820, 24047, 33518, 29839>>,
  <<12128, 17175, 25455, 30885>>,
  <<43890, 41456, 30740, 33992>>,
  <<14828, 6756, 520, 36039>>,
  <<7720, 9059, 65530, 37054>>,
  <<48617, 56962, 27883, 42064>>,
  <<30997, 45766, 41975, 48889>>,
  <<21291, 58226, 30962, 50801>>,
  <<24988, 59942, 16078, 51751>>,
  <<49671, 8640, 47303, 53638>>,
  <<60190, 52704, 32214, 60122>>,
  <<53624, 61038, 20351, 62845>>,
  <<28602, 29207, 26538, 1776>>,
  <<39078, 41672, 32197, 2659>>,
  <<3502, 48889, 38916, 4415>>,
  <<18203, 4892, 2869, 7025>>,
  <<32132, 8964, 30709, 10459>>,
  <<9363, 16583, 43899, 13002>>,
  <<48828, 5577, 48650, 15518>>,
  <<3404, 39952, 26564, 17181>>,
  <<17078, 52030, 54462, 19653>>,
  <<32298, 64613, 10652, 22911>>,
  <<64236, 15062, 28587, 24523>>,
  <<22551, 19015, 6540, 27716>>>>
K256 == <<<<12184, 17034>>,
  <<17553, 28983>>,
  <<64463, 46528>>,
  <<56229, 59829>>,
  <<49755, 14678>>,
  <<4593, 23025>>,
  <<33444, 37439>>,
  <<24277, 43804>>,
  <<43672, 55303>>,
  <<23297, 4739>>,
  <<34238, 9265>>,
  <<32195, 21772>>,
  <<23924, 29374>>,
  <<45566, 32990>>,
  <<1703, 39900>>,
  <<61812, 49563>>,
  <<27073, 58523>>,
  <<18310, 61374>>,
  <<40390, 4033>>,
  <<41420, 9228>>,
  <<11375, 11753>>,
  <<33962, 19060>>,
  <<43484, 23728>>,
  <<35034, 30457>>,
  <<20818, 38974>>,
  <<50797, 43057>>,
  <<10184, 45059>>,
  <<32711, 48985>>,
  <<3059, 50912>>,
  <<37191, 54695>>,
  <<25425, 1738>>,
  <<10599, 5161>>,
  <<2693, 10167>>,
  <<8504, 11803>>,
  <<28156, 19756>>,
  <<3347, 21304>>,
  <<29524, 25866>>,
  <<2747, 30314>>,
  <<51502, 33218>>,
  <<11397, 37490>>,
  <<59553, 41663>>,
  <<26187, 43034>>,
  <<35696, 49739>>,
  <<20899, 51052>>,
  <<59417, 53650>>,
  <<1572, 54937>>,
  <<13701, 62478>>,
  <<41072, 4202>>,
  <<49430, 6564>>,
  <<27656, 7735>>,
  <<30540, 10056>>,
  <<48309, 13488>>,
  <<3251, 14620>>,
  <<43594, 20184>>,
  <<51791, 23452>>,
  <<28659, 26670>>,
  <<33518, 29839>>,
  <<25455, 30885>>,
  <<30740, 33992>>,
  <<520, 36039>>,
  <<65530, 37054>>,
  <<27883, 42064>>,
  <<41975, 48889>>,
  <<30962, 50801>>>>
H512 == <<<<51464, 62396, 58983, 27145>>,
  <<42811, 33994, 44677, 47975>>,
  <<63531, 65172, 62322, 15470>>,
  <<14065, 24349, 62778, 42319>>,
  <<33489, 44518, 21119, 20750>>,
  <<27679, 11070, 26764, 39685>>,
  <<48491, 64321, 55723, 8067>>,
  <<8569, 4990, 52505, 23520>>>>
H256 == <<<<58983, 27145>>,
  <<44677, 47975>>,
  <<62322, 15470>>,
  <<62778, 42319>>,
  <<21119, 20750>>,
  <<26764, 39685>>,
  <<55723, 8067>>,
  <<52505, 23520>>>>

X3(a, b, c) == WXor(WXor(a, b), c)
Ch(e, f, g) == WXor(WAnd(e, f), WAnd(WNot(e), g))
Maj(a, b, c) == X3(WAnd(a, b), WAnd(a, c), WAnd(b, c))

RECURSIVE Sched(_, _, _)
\* r: the rotation amounts <<s0a, s0b, s0shift, s1a, s1b, s1shift>>
Sched(w, n, r) ==
  IF Len(w) = n THEN w
  ELSE LET i == Len(w) + 1
           s0 == X3(WRotr(w[i - 15], r[1]), WRotr(w[i - 15], r[2]), WShr(w[i - 15], r[3]))
           s1 == X3(WRotr(w[i - 2], r[4]), WRotr(w[i - 2], r[5]), WShr(w[i - 2], r[6]))
       IN Sched(TLCEval(Append(w, WAdd(WAdd(WAdd(w[i - 16], s0), w[i - 7]), s1))), n, r)
RECURSIVE Rounds(_, _, _, _, _)
Rounds(v, w, k, i, r) ==
  IF i > Len(w) THEN v
  ELSE LET a == v[1] b == v[2] c == v[3] d == v[4] e == v[5] f == v[6] g == v[7] h == v[8]
           t1 == WAdd(WAdd(WAdd(WAdd(h, X3(WRotr(e, r[4]), WRotr(e, r[5]), WRotr(e, r[6]))), Ch(e, f, g)), k[i]), w[i])
           t2 == WAdd(X3(WRotr(a, r[1]), WRotr(a, r[2]), WRotr(a, r[3])), Maj(a, b, c))
       IN Rounds(TLCEval(<<WAdd(t1, t2), a, b, c, WAdd(d, t1), e, f, g>>), w, k, i + 1, r)
DCompress(h, m, k, sr, rr) ==
  LET v == Rounds(h, Sched(m, Len(k), sr), k, 1, rr) IN [i \in 1..8 |-> WAdd(h[i], v[i])]
DCompress256(h, m, k) == DCompress(h, m, k, <<7, 18, 3, 17, 19, 10>>, <<2, 13, 22, 6, 11, 25>>)
DCompress512(h, m, k) == DCompress(h, m, k, <<1, 8, 7, 19, 61, 6>>, <<28, 34, 39, 14, 18, 41>>)
\* evaluated by an override in TLC; OverridesCheck.tla compares them
Compress256(h, m, k) == DCompress256(h, m, k)
Compress512(h, m, k) == DCompress512(h, m, k)

\* big-endian bytes to a word of n limbs, at offset o
WordAt(bs, o, n) == [i \in 1..n |-> bs[o + 2 * (n - i) + 1] * 256 + bs[o + 2 * (n - i) + 2]]
BytesOfWord(w) == LET n == Len(w) IN [j \in 1..(2 * n) |-> LET l == w[n - ((j - 1) \div 2)] IN IF j % 2 = 1 THEN l \div 256 ELSE l % 256]

\* padding for blocks of bs bytes with a length field of ls bytes (message shorter than 2^28 bytes)
Padding(n, bs, ls) ==
  LET z == (2 * bs - ((n + 1 + ls) % bs)) % bs
  IN <<128>> \o [i \in 1..(z + ls - 4) |-> 0] \o
     <<(8 * n) \div 16777216, ((8 * n) \div 65536) % 256, ((8 * n) \div 256) % 256, (8 * n) % 256>>
RECURSIVE Iter512(_, _, _)
Iter512(h, p, o) == IF o >= Len(p) THEN h
  ELSE Iter512(TLCEval(Compress512(h, [j \in 1..16 |-> WordAt(p, o + 8 * (j - 1), 4)], K512)), p, o + 128)
RECURSIVE Iter256(_, _, _)
Iter256(h, p, o) == IF o >= Len(p) THEN h
  ELSE Iter256(TLCEval(Compress256(h, [j \in 1..16 |-> WordAt(p, o + 4 * (j - 1), 2)], K256)), p, o + 64)
Cat8(h) == BytesOfWord(h[1]) \o BytesOfWord(h[2]) \o BytesOfWord(h[3]) \o BytesOfWord(h[4])
        \o BytesOfWord(h[5]) \o BytesOfWord(h[6]) \o BytesOfWord(h[7]) \o BytesOfWord(h[8])
Sha512(m) == Cat8(Iter512(H512, m \o Padding(Len(m), 128, 16), 0))
Sha256(m) == Cat8(Iter256(H256, m \o Padding(Len(m), 64, 8), 0))
=============================================================================

--------------------------- MODULE OverridesCheck ---------------------------
(* Compares TLC's evaluation overrides (spec/java) with the TLA+           *)
(* definitions of the same operators, and both with published vectors.     *)
EXTENDS Keccak, Sha2, Poseidon, ExtField
Big3 == { Norm(<<x, y, z>>) : x \in {0, 7, 32767}, y \in {0, 32767}, z \in {0, 5} }
W2 == { <<x, y>> : x \in {0, 1, 32768, 65535, 4660}, y \in {0, 65535, 43981} }
W4 == { <<x, 9, y, x>> : x \in {0, 65535, 4660}, y \in {1, 43981} }
VARIABLES k, a, b
Init == k = "start" /\ a = 0 /\ b = 0
Pick == \/ k' = "big" /\ a' \in Big3 /\ b' \in Big3
        \/ k' = "word" /\ ((a' \in W2 /\ b' \in W2) \/ (a' \in W4 /\ b' \in W4))
        \/ k' = "hash" /\ a' \in 0..1 /\ b' = 0
        \/ k' = "ext" /\ a' \in 1..6 /\ b' \in 1..6
        \/ k' = "poseidon" /\ a' \in {1, 2} /\ b' = 0
Next == k = "start" /\ Pick
P == <<32749, 32767, 1>>
BigAgree ==
  /\ Add(a, b) = DAdd(a, b) /\ Mul(a, b) = DMul(a, b) /\ Cmp(a, b) = DCmp(a, b)
  /\ (DCmp(a, b) >= 1 => Sub(a, b) = DSub(a, b))
  /\ (b # <<>> => Div(a, b) = DDiv(a, b) /\ Mod(a, b) = DMod(a, b))
  /\ BitLen(a) = DBitLen(a)
  /\ AddMod(a, b, P) = DMod(DAdd(a, b), P) /\ MulMod(a, b, P) = DMod(DMul(a, b), P)
  /\ LET x == DMod(a, P) y == DMod(b, P) IN SubMod(x, y, P) = DMod(DSub(DAdd(x, P), y), P)
  /\ LET t == ToBytes(a, 6) IN t = DToBytes(a, 6) /\ FromBytes(t) = a /\ DFromBytes(t) = a
  /\ LET t == ToBits(a, 46) IN t = DToBits(a, 46) /\ FromBits(t) = a /\ DFromBits(t) = a
  /\ LET e == NatOf(Dg(b, 1) % 11) IN PowMod(a, e, P) = DPow(a, e, P)
WordAgree ==
  /\ WXor(a, b) = DXor(a, b) /\ WAnd(a, b) = DAnd(a, b) /\ WNot(a) = DNot(a) /\ WAdd(a, b) = DWAdd(a, b)
  /\ \A r \in {0, 1, 15, 16, 17, 31} : WRotl(a, r) = DRotl(a, r) /\ WShr(a, r) = DShr(a, r)
L(i) == <<(i * 40503 + a) % 65536, (i * 30011) % 65536, (i * 7919 + 77 * a) % 65536, (i * 104729) % 65536>>
L2(i) == SubSeq(L(i), 1, 2)
HashAgree ==
  /\ IF a = 1 THEN DK512 = K512 /\ DH512 = H512 ELSE DK256 = K256 /\ DH256 = H256
  /\ LET A == [i \in 1..25 |-> IF a = 0 THEN ZeroLane ELSE L(i)] IN KeccakF(A) = DKeccakF(A)
  /\ LET h == [i \in 1..8 |-> L(i)] m == [i \in 1..16 |-> L(i + 8)] IN Compress512(h, m, K512) = DCompress512(h, m, K512)
  /\ LET h == [i \in 1..8 |-> L2(i)] m == [i \in 1..16 |-> L2(i + 8)] IN Compress256(h, m, K256) = DCompress256(h, m, K256)
  \* published digests: Keccak-256 of the empty string, SHA-256("abc"), SHA-512("abc")
  /\ SubSeq(Keccak256(<<>>), 1, 8) = <<197, 210, 70, 1, 134, 247, 35, 60>>
  /\ SubSeq(Sha256(<<97, 98, 99>>), 1, 8) = <<186, 120, 22, 191, 143, 1, 207, 234>>
  /\ SubSeq(Sha512(<<97, 98, 99>>), 1, 8) = <<221, 175, 53, 161, 147, 97, 122, 186>>
PoseidonAgree ==
  LET x == SubSeq(<< <<1>>, <<2>> >>, 1, a) IN
  /\ a = 1 => PoseidonHash(x) = DPoseidonHash(x)
  \* the published digest of 1, 2
  /\ a = 2 => PoseidonHash(x) = <<6298, 2094, 489, 28875, 21785, 1608, 31901, 6923, 20266, 17875, 11865, 12899, 5087, 21000, 31221, 24698, 4444>>
\* prime fields of one and two digits, extensions of degree 1 to 4, also reducible ones and with inner coefficients
XP(i) == IF i % 2 = 0 THEN <<7>> ELSE <<32749, 5>>
XE(n, t, q) == [j \in 1..n |-> IF (t + j) % 4 = 0 THEN <<>> ELSE Mod(Norm(<<(7919 * t * j + 31) % 32768, (t * j * j) % 9>>), q)]
ExtAgree == \A n \in 1..4 : LET q == XP(b) r == XE(n, a + b, q) x == XE(n, a, q) y == XE(n, b + 7, q) IN
  /\ PolyMul(q, r, x, y) = DPolyMul(q, r, x, y)
  /\ PolyPow(q, r, x, NatOf(a * 37 + b)) = DPolyPow(q, r, x, NatOf(a * 37 + b))
  /\ PolyPow(q, r, x, <<>>) = PolyOne(n)
  \* inverses where the field is one: w^2 = -1 mod 7, the constants
  /\ LET z == <<NatOf(a), NatOf(b)>> IN PolyInv(<<7>>, <<<<6>>, <<>>>>, z) = DPolyInv(<<7>>, <<<<6>>, <<>>>>, z)
  /\ PolyInv(<<7>>, <<<<6>>, <<>>>>, <<<<>>, <<>>>>) = <<<<>>, <<>>>>
Inv == CASE k = "ext" -> ExtAgree [] k = "poseidon" -> PoseidonAgree [] k = "start" -> TRUE [] k = "big" -> BigAgree [] k = "word" -> WordAgree [] OTHER -> HashAgree
=============================================================================

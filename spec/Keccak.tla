------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* Keccak-256 (the pre-NIST padding Ethereum uses) as a sponge.  A lane is *)
(* four 16-bit limbs, least significant first; the state is 25 lanes, lane *)
(* x + 5y at index x + 5y + 1.  The round constants and rotation offsets   *)
(* are derived from their definitions (LFSR, triangular numbers).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Words, TLC

XorL(a, b) == WXor(a, b)
NotAnd(a, b) == WAnd(WNot(a), b)
Rotl64(a, r) == WRotl(a, r)

ZeroLane == <<0, 0, 0, 0>>
EmptyState == [i \in 1..25 |-> ZeroLane]

\* rotation offsets: start at (1,0), t-th step has offset (t+1)(t+2)/2, (x,y) -> (y, 2x+3y)
RECURSIVE RotWalk(_, _, _, _)
RotWalk(x, y, t, m) ==
  IF t = 24 THEN m
  ELSE RotWalk(y, (2 * x + 3 * y) % 5, t + 1, [m EXCEPT ![x + 5 * y + 1] = (((t + 1) * (t + 2)) \div 2) % 64])
RotOff == TLCEval(RotWalk(1, 0, 0, [i \in 1..25 |-> 0]))

\* round constants: bit 2^j - 1 of RC[r] is output 7r + j of the LFSR x^8+x^6+x^5+x^4+1
RECURSIVE Lfsr(_, _)
Lfsr(n, r) == IF n = 0 THEN r ELSE Lfsr(n - 1, LET d == r * 2 IN IF d >= 256 THEN (d - 256) ^^ 113 ELSE d)
RcBit(t) == Lfsr(t % 255, 1) % 2
RcLane(r) ==
  LET b == [j \in 0..6 |-> RcBit(7 * r + j)]
  IN <<b[0] + 2 * b[1] + 8 * b[2] + 128 * b[3] + 32768 * b[4], 32768 * b[5], 0, 32768 * b[6]>>
RC == TLCEval([r \in 1..24 |-> RcLane(r - 1)])

\* pi: B[y][2x+3y] = rot(A[x][y]);  source index for each destination
PiSrc == TLCEval([d \in 1..25 |-> CHOOSE s \in 1..25 :
                  LET x == (s - 1) % 5  y == (s - 1) \div 5 IN d = y + 5 * ((2 * x + 3 * y) % 5) + 1])
PiRot == TLCEval([d \in 1..25 |-> RotOff[PiSrc[d]]])

Round(A, r) ==
  LET C == TLCEval([x \in 1..5 |-> XorL(XorL(XorL(XorL(A[x], A[x + 5]), A[x + 10]), A[x + 15]), A[x + 20])])
      D == TLCEval([x \in 1..5 |-> XorL(C[((x + 3) % 5) + 1], Rotl64(C[(x % 5) + 1], 1))])
      Bm == TLCEval([d \in 1..25 |-> LET s == PiSrc[d] IN Rotl64(XorL(A[s], D[((s - 1) % 5) + 1]), PiRot[d])])
      E == TLCEval([i \in 1..25 |-> LET x == (i - 1) % 5  y5 == i - 1 - x
                            IN XorL(Bm[i], NotAnd(Bm[y5 + ((x + 1) % 5) + 1], Bm[y5 + ((x + 2) % 5) + 1]))])
  IN [E EXCEPT ![1] = XorL(@, RC[r])]

RECURSIVE PermFrom(_, _)
PermFrom(A, r) == IF r > 24 THEN A ELSE PermFrom(TLCEval(Round(A, r)), r + 1)
DKeccakF(A) == PermFrom(A, 1)
\* evaluated by an override in TLC; OverridesCheck.tla compares it with DKeccakF
KeccakF(A) == DKeccakF(A)

\* a block is 136 bytes; lane i is bytes 8i..8i+7 little endian
LaneOf(bs, o) == <<bs[o + 1] + 256 * bs[o + 2], bs[o + 3] + 256 * bs[o + 4], bs[o + 5] + 256 * bs[o + 6], bs[o + 7] + 256 * bs[o + 8]>>
AbsorbLanes(A, ls) == KeccakF(TLCEval([i \in 1..25 |-> IF i <= 17 THEN XorL(A[i], ls[i]) ELSE A[i]]))
Absorb(A, block) == AbsorbLanes(A, [i \in 1..17 |-> LaneOf(block, 8 * (i - 1))])
LaneBytes(a) == <<a[1] % 256, a[1] \div 256, a[2] % 256, a[2] \div 256, a[3] % 256, a[3] \div 256, a[4] % 256, a[4] \div 256>>
Squeeze32(A) == LaneBytes(A[1]) \o LaneBytes(A[2]) \o LaneBytes(A[3]) \o LaneBytes(A[4])

\* 1 0* 1 padding to a multiple of the rate
PadLen(n) == 136 - (n % 136)
Pad(m) == LET k == PadLen(Len(m))
          IN m \o [i \in 1..k |-> (IF i = 1 THEN 1 ELSE 0) + (IF i = k THEN 128 ELSE 0)]

RECURSIVE AbsorbAll(_, _, _)
\* absorb n blocks of p starting with block i (from 0)
AbsorbAll(A, p, n) == IF n = 0 THEN A ELSE AbsorbAll(TLCEval(Absorb(A, SubSeq(p, 1, 136))), SubSeq(p, 137, Len(p)), n - 1)
Keccak256Padded(p, n) == Squeeze32(AbsorbAll(EmptyState, p, n))
Keccak256(m) == LET p == Pad(m) IN Keccak256Padded(p, Len(p) \div 136)
=============================================================================

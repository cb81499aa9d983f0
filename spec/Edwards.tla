------------------------------ MODULE Edwards ------------------------------
(* Twisted Edwards curves -x^2 + y^2 = 1 + d x^2 y^2 over a prime field in   *)
(* which -1 is a square and d is not (so addition is complete), and EdDSA    *)
(* over them.  A curve is a record [p, d, g, n, cof]: g generates the        *)
(* subgroup of prime order n, the curve has cof * n points.                  *)
EXTENDS BigNat

EdO == <<<<>>, <<1>>>>
EdOn(c, P) ==
  LET xx == MulMod(P[1], P[1], c.p) yy == MulMod(P[2], P[2], c.p)
  IN Lt(P[1], c.p) /\ Lt(P[2], c.p) /\ SubMod(yy, xx, c.p) = AddMod(One, MulMod(c.d, MulMod(xx, yy, c.p), c.p), c.p)
EdNeg(c, P) == <<SubMod(<<>>, P[1], c.p), P[2]>>
EdAdd(c, P, Q) ==
  LET a == MulMod(P[1], Q[2], c.p) b == MulMod(P[2], Q[1], c.p)
      k == MulMod(c.d, MulMod(a, b, c.p), c.p)
      yy == MulMod(P[2], Q[2], c.p) xx == MulMod(P[1], Q[1], c.p)
  IN <<MulMod(AddMod(a, b, c.p), InvMod(AddMod(One, k, c.p), c.p), c.p),
       MulMod(AddMod(yy, xx, c.p), InvMod(SubMod(One, k, c.p), c.p), c.p)>>
RECURSIVE EdMulBits(_, _, _, _)
EdMulBits(c, bs, P, A) == IF bs = <<>> THEN A
  ELSE EdMulBits(c, Tail(bs), P, LET D == EdAdd(c, A, A) IN IF bs[1] = 1 THEN EdAdd(c, D, P) ELSE D)
EdTop(k) == LET n == BitLen(k) bs == ToBits(k, n) IN [i \in 1..n |-> bs[n + 1 - i]]
EdMul(c, k, P) == EdMulBits(c, EdTop(k), P, EdO)

(* signatures.  h is the hash of R, the key and the message; the equation is *)
(* the one with the cofactor                                                 *)
EdSign(c, a, r, h) == [R |-> EdMul(c, r, c.g), s |-> AddMod(r, MulMod(Mod(h, c.n), a, c.n), c.n)]
EdHolds(c, A, R, s, h) ==
  EdMul(c, c.cof, EdAdd(c, EdMul(c, s, c.g), EdNeg(c, EdAdd(c, EdMul(c, Mod(h, c.n), A), R)))) = EdO
EdValid(c, A, R, s, h) == EdOn(c, A) /\ EdOn(c, R) /\ Lt(s, c.n) /\ EdHolds(c, A, R, s, h)

(* the 32-byte encoding: y little-endian, the parity of x in the top bit *)
Odd(x) == Mod(x, <<2>>) = One
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
EdEncode(P) == Rev(ToBytes(Add(P[2], IF Odd(P[1]) THEN Pow2(255) ELSE <<>>), 32))
LittleEndian(bs) == FromBytes(Rev(bs))

Ed25519 == LET p == Sub(Pow2(255), <<19>>) IN
  [p |-> p,
   d |-> SubMod(<<>>, MulMod(NatOf(121665), InvMod(NatOf(121666), p), p), p),
   g |-> << FromHex(<<2,1,6,9,3,6,13,3,12,13,6,14,5,3,15,14,12,0,10,4,14,2,3,1,15,13,13,6,13,12,5,12,6,9,2,12,12,7,6,0,9,5,2,5,10,7,11,2,12,9,5,6,2,13,6,0,8,15,2,5,13,5,1,10>>),
            MulMod(<<4>>, InvMod(<<5>>, p), p) >>,
   n |-> Add(Pow2(252), FromHex(<<1,4,13,14,15,9,13,14,10,2,15,7,9,12,13,6,5,8,1,2,6,3,1,10,5,12,15,5,13,3,14,13>>)),
   cof |-> <<8>>]
=============================================================================

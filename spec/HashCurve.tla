----------------------------- MODULE HashCurve -----------------------------
(* Hashing to the twist of BLS12-381 (RFC 9380): message expansion with    *)
(* SHA-256, the simplified SWU map onto y^2 = x^3 + A x + B in the RFC's    *)
(* plain form (section 6.6.2), the 3-isogeny by Velu's formulas, and the    *)
(* cofactor.                                                               *)
EXTENDS Bls, Sha2

XorB(a, b) == LET w(x) == ToBits(NatOf(x), 8)
                  c == [i \in 1..8 |-> (w(a)[i] + w(b)[i]) % 2]
              IN c[1] + 2 * c[2] + 4 * c[3] + 8 * c[4] + 16 * c[5] + 32 * c[6] + 64 * c[7] + 128 * c[8]
DstPrime(dst) == dst \o <<Len(dst)>>
RECURSIVE XmdRest(_, _, _, _, _)
XmdRest(b0, prev, i, ell, dst) == IF i > ell THEN <<>>
  ELSE LET b == TLCEval(Sha256([j \in 1..32 |-> XorB(b0[j], prev[j])] \o <<i>> \o DstPrime(dst)))
       IN b \o XmdRest(b0, b, i + 1, ell, dst)
ExpandXmd(msg, dst, len) ==
  LET b0 == TLCEval(Sha256([i \in 1..64 |-> 0] \o msg \o <<len \div 256, len % 256, 0>> \o DstPrime(dst)))
  IN TLCEval(SubSeq(XmdRest(b0, [i \in 1..32 |-> 0], 1, (len + 31) \div 32, dst), 1, len))
\* count elements of F_p2, 64 bytes to a coordinate, of len bytes
HashField(p, msg, dst, count, len) ==
  LET e == ExpandXmd(msg, dst, len)
      co(k) == Mod(FromBytes(SubSeq(e, 64 * k + 1, 64 * k + 64)), p)
  IN [i \in 1..count |-> <<co(2 * i - 2), co(2 * i - 1)>>]

\* squares and signs in F_p2
XOdd(a) == Mod(a, <<2>>) = One
Sgn0(a) == IF a[1] = <<>> THEN XOdd(a[2]) ELSE XOdd(a[1])
Q2(K) == Mul(K.p, K.p)
IsSquareX(K, a) == XPow(K, a, Div(Sub(Q2(K), One), <<2>>)) \in {XOne(K), XZero(K)}
\* p^2 = 9 mod 16; z any nonsquare: the eighth roots of one are powers of z^((q-1)/8)
SqrtX(K, z, a) ==
  LET t == XPow(K, a, Div(Add(Q2(K), <<7>>), <<16>>))
      g == XPow(K, z, Div(Sub(Q2(K), One), <<8>>))
      cand(k) == XMul(K, t, XPow(K, g, NatOf(k)))
  IN cand(CHOOSE k \in 0..3 : XSq(K, cand(k)) = a)

SwuG(K, ca, cb, x) == XAdd(K, XAdd(K, XMul(K, x, XSq(K, x)), XMul(K, ca, x)), cb)
Swu(K, ca, cb, Z, u) ==
  LET zu2 == TLCEval(XMul(K, Z, XSq(K, u)))
      d == XAdd(K, XSq(K, zu2), zu2)
      ba == XDiv(K, XNeg(K, cb), ca)
      x1 == TLCEval(IF d = XZero(K) THEN XDiv(K, cb, XMul(K, Z, ca)) ELSE XMul(K, ba, XAdd(K, XOne(K), XInv(K, d))))
      x == TLCEval(IF IsSquareX(K, SwuG(K, ca, cb, x1)) THEN x1 ELSE XMul(K, zu2, x1))
      y == TLCEval(SqrtX(K, Z, SwuG(K, ca, cb, x)))
  IN <<x, IF Sgn0(u) = Sgn0(y) THEN y ELSE XNeg(K, y)>>

\* the isogeny of degree 3 with kernel {infinity, (x0, +-y0)}, then (x/9, -y/27)
Velu3(K, ca, cb, x0, P) ==
  IF P[1] = x0 THEN Inf
  ELSE LET t == XScale(K, <<2>>, XAdd(K, XScale(K, <<3>>, XSq(K, x0)), ca))
           u == XScale(K, <<4>>, SwuG(K, ca, cb, x0))
           w == TLCEval(XInv(K, XSub(K, P[1], x0)))
           w2 == XSq(K, w)
           X == XAdd(K, P[1], XAdd(K, XMul(K, t, w), XMul(K, u, w2)))
           Y == XMul(K, P[2], XSub(K, XSub(K, XOne(K), XMul(K, t, w2)), XMul(K, XScale(K, <<2>>, u), XMul(K, w, w2))))
       IN TLCEval(<<XScale(K, InvMod(<<9>>, K.p), X), XNeg(K, XScale(K, InvMod(<<27>>, K.p), Y))>>)

G2K == TLCEval(BlsK2(Bls12381))
G2A == <<<<>>, <<240>>>>
G2B == <<<<1012>>, <<1012>>>>
G2Z == TLCEval(<<SubMod(<<>>, <<2>>, Bls12381.p), SubMod(<<>>, One, Bls12381.p)>>)
G2X0 == TLCEval(<<SubMod(<<>>, <<6>>, Bls12381.p), <<6>>>>)
MapG2(u) == Swu(G2K, G2A, G2B, G2Z, u)
IsoG2(P) == Velu3(G2K, G2A, G2B, G2X0, P)
HashG2(msg, dst) == LET u == TLCEval(HashField(Bls12381.p, msg, dst, 2, 256)) IN
  ClearCof(Bls12381, CAdd(G2K, IsoG2(MapG2(u[1])), IsoG2(MapG2(u[2]))))
EncodeG2(msg, dst) == LET u == TLCEval(HashField(Bls12381.p, msg, dst, 1, 128)) IN ClearCof(Bls12381, IsoG2(MapG2(u[1])))
=============================================================================

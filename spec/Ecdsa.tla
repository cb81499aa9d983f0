-------------------------------- MODULE Ecdsa --------------------------------
(* Short Weierstrass curves y^2 = x^3 + a x + b over a prime field, and      *)
(* ECDSA with public-key recovery over them.  A curve is a record            *)
(* [p, a, b, g, n] of big naturals; a point is <<x, y>> or Infinity.         *)
EXTENDS BigNat

Infinity == <<>>
OnCurve(c, P) == P = Infinity \/
  MulMod(P[2], P[2], c.p) = AddMod(AddMod(PowMod(P[1], <<3>>, c.p), MulMod(c.a, P[1], c.p), c.p), c.b, c.p)
PNeg(c, P) == IF P = Infinity THEN P ELSE <<P[1], SubMod(<<>>, P[2], c.p)>>
Chord(c, P, Q, m) == LET x == SubMod(SubMod(MulMod(m, m, c.p), P[1], c.p), Q[1], c.p)
                     IN <<x, SubMod(MulMod(m, SubMod(P[1], x, c.p), c.p), P[2], c.p)>>
PAdd(c, P, Q) ==
  IF P = Infinity THEN Q ELSE IF Q = Infinity THEN P
  ELSE IF P[1] = Q[1]
  THEN IF P[2] = Q[2] /\ P[2] # Zero
       THEN Chord(c, P, P, MulMod(AddMod(MulMod(<<3>>, MulMod(P[1], P[1], c.p), c.p), c.a, c.p), InvMod(MulMod(<<2>>, P[2], c.p), c.p), c.p))
       ELSE Infinity
  ELSE Chord(c, P, Q, MulMod(SubMod(Q[2], P[2], c.p), InvMod(SubMod(Q[1], P[1], c.p), c.p), c.p))
RECURSIVE PMulBits(_, _, _, _)
\* bits of the scalar from the top, accumulated in A
PMulBits(c, bs, P, A) == IF bs = <<>> THEN A
  ELSE PMulBits(c, Tail(bs), P, LET D == PAdd(c, A, A) IN IF bs[1] = 1 THEN PAdd(c, D, P) ELSE D)
TopBits(k) == LET n == BitLen(k) bs == ToBits(k, n) IN [i \in 1..n |-> bs[n + 1 - i]]
PMul(c, k, P) == PMulBits(c, TopBits(k), P, Infinity)

(* signatures: z is the hash of the message reduced modulo n *)
\* with nonce k; v is the parity of the nonce point (the x coordinate below n)
Sign(c, d, z, k) == LET R == PMul(c, k, c.g) r == Mod(R[1], c.n)
                    IN [r |-> r, s |-> MulMod(InvMod(k, c.n), AddMod(z, MulMod(r, d, c.n), c.n), c.n),
                        v |-> (IF Mod(R[2], <<2>>) = One THEN 1 ELSE 0) + (IF Lt(R[1], c.n) THEN 0 ELSE 2)]
Verify(c, P, z, r, w) == LET si == InvMod(w, c.n)
                             R == PAdd(c, PMul(c, MulMod(z, si, c.n), c.g), PMul(c, MulMod(r, si, c.n), P))
                         IN R # Infinity /\ Mod(R[1], c.n) = r
InRange(c, x) == x # Zero /\ Lt(x, c.n)
\* p = 3 mod 4: the square root of a square
SqrtMod(x, p) == PowMod(x, Div(Add(p, One), <<4>>), p)
\* the point with this x coordinate and parity, Infinity if there is none
Lift(c, x, odd) ==
  IF ~Lt(x, c.p) THEN Infinity
  ELSE LET rhs == AddMod(AddMod(PowMod(x, <<3>>, c.p), MulMod(c.a, x, c.p), c.p), c.b, c.p)
           y == SqrtMod(rhs, c.p)
       IN IF MulMod(y, y, c.p) # rhs THEN Infinity
          ELSE IF (Mod(y, <<2>>) = One) = odd THEN <<x, y>> ELSE IF y = Zero THEN Infinity ELSE <<x, SubMod(<<>>, y, c.p)>>
\* the key that signed z, Infinity if there is none
Recover(c, z, v, r, w) ==
  IF v \notin 0..3 \/ ~InRange(c, r) \/ ~InRange(c, w) THEN Infinity
  ELSE LET R == Lift(c, IF v >= 2 THEN Add(r, c.n) ELSE r, v % 2 = 1) IN
       IF R = Infinity THEN Infinity
       ELSE LET ri == InvMod(r, c.n) IN
            PAdd(c, PMul(c, MulMod(w, ri, c.n), R), PMul(c, SubMod(<<>>, MulMod(Mod(z, c.n), ri, c.n), c.n), c.g))

H8(w) == FromHex(w)
Secp256k1 ==
  [p |-> FromHex(<<15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,14,15,15,15,15,15,12,2,15>>),
   a |-> <<>>, b |-> <<7>>,
   g |-> << FromHex(<<7,9,11,14,6,6,7,14,15,9,13,12,11,11,10,12,5,5,10,0,6,2,9,5,12,14,8,7,0,11,0,7,0,2,9,11,15,12,13,11,2,13,12,14,2,8,13,9,5,9,15,2,8,1,5,11,1,6,15,8,1,7,9,8>>),
            FromHex(<<4,8,3,10,13,10,7,7,2,6,10,3,12,4,6,5,5,13,10,4,15,11,15,12,0,14,1,1,0,8,10,8,15,13,1,7,11,4,4,8,10,6,8,5,5,4,1,9,9,12,4,7,13,0,8,15,15,11,1,0,13,4,11,8>>) >>,
   n |-> FromHex(<<15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,14,11,10,10,14,13,12,14,6,10,15,4,8,10,0,3,11,11,15,13,2,5,14,8,12,13,0,3,6,4,1,4,1>>)]
\* the bytes a hash of the key is taken of
PointBytes(P) == ToBytes(P[1], 32) \o ToBytes(P[2], 32)
=============================================================================

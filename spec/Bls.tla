-------------------------------- MODULE Bls --------------------------------
(* BLS12 curves.  The tower is one polynomial field: F_p12 = F_p[w] with   *)
(* w^6 = c + i and i^2 = -1, so F_p2 = F_p[i], v = w^2 and F_p6 = F_p[v].  *)
(* A curve is a record                                                     *)
(*   [p, n, x, neg, c, b]   p the field, n the prime order, x the absolute *)
(*   value of the parameter and neg its sign, y^2 = x^3 + b over F_p and   *)
(*   y^2 = x^3 + b (c + i) over F_p2 (the twist).                          *)
EXTENDS ExtField

BlsK1(C) == [p |-> C.p, r |-> <<<<>>>>]
BlsK2(C) == [p |-> C.p, r |-> <<Sub(C.p, One), <<>>>>]
\* x^n = 2c x^(n/2) - (c^2 + 1)
BlsKn(C, n) == [p |-> C.p, r |-> [j \in 1..n |-> IF j = 1 THEN SubMod(<<>>, NatOf(C.c * C.c + 1), C.p)
                                              ELSE IF j = n \div 2 + 1 THEN NatOf(2 * C.c) ELSE <<>>]]
BlsK6(C) == BlsKn(C, 6)
BlsK12(C) == BlsKn(C, 12)
\* an element of F_p2 tower coordinates <<a0, a1, b0, b1, ...>> (coefficient
\* of 1, of i, of the next power ...) as a polynomial, and back
FromTower(C, n, t) == LET h == n \div 2 IN
  [j \in 1..n |-> IF j <= h THEN SubMod(t[2 * j - 1], MulMod(NatOf(C.c), t[2 * j], C.p), C.p) ELSE t[2 * (j - h)]]
ToTower(C, n, a) == LET h == n \div 2 IN
  [j \in 1..n |-> LET k == (j + 1) \div 2 IN IF j % 2 = 0 THEN a[h + k] ELSE AddMod(a[k], MulMod(NatOf(C.c), a[h + k], C.p), C.p)]
Xi(C) == <<NatOf(C.c), One>>

(* the group law on y^2 = x^3 + b over any of the fields; <<>> is infinity *)
Inf == <<>>
COn(K, b, P) == P = Inf \/ XSq(K, P[2]) = XAdd(K, XMul(K, P[1], XSq(K, P[1])), b)
CNeg(K, P) == IF P = Inf THEN Inf ELSE <<P[1], XNeg(K, P[2])>>
CSlope(K, P, Q) == IF P = Q THEN XDiv(K, XScale(K, <<3>>, XSq(K, P[1])), XScale(K, <<2>>, P[2]))
                   ELSE XDiv(K, XSub(K, Q[2], P[2]), XSub(K, Q[1], P[1]))
CAdd(K, P, Q) ==
  IF P = Inf THEN Q ELSE IF Q = Inf THEN P
  ELSE IF P[1] = Q[1] /\ (P[2] # Q[2] \/ P[2] = XZero(K)) THEN Inf
  ELSE LET l == TLCEval(CSlope(K, P, Q))
           x == TLCEval(XSub(K, XSub(K, XSq(K, l), P[1]), Q[1]))
       IN TLCEval(<<x, XSub(K, XMul(K, l, XSub(K, P[1], x)), P[2])>>)
CSub(K, P, Q) == CAdd(K, P, CNeg(K, Q))
RECURSIVE CMulBits(_, _, _, _)
CMulBits(K, bs, P, A) == IF bs = <<>> THEN A
  ELSE CMulBits(K, Tail(bs), P, LET D == CAdd(K, A, A) IN IF bs[1] = 1 THEN CAdd(K, D, P) ELSE D)
CTop(k) == LET n == BitLen(k) bs == ToBits(k, n) IN [i \in 1..n |-> bs[n + 1 - i]]
CMul(K, k, P) == CMulBits(K, CTop(k), P, Inf)
\* multiplication by the curve parameter, which may be negative
CMulX(C, K, P) == LET Q == CMul(K, C.x, P) IN IF C.neg THEN CNeg(K, Q) ELSE Q
InSubgroup(C, K, P) == CMul(K, C.n, P) = Inf

TwistB(C) == XMul(BlsK2(C), Xi(C), XOf(BlsK2(C), C.b))

(* Miller's function f_(m,Q)(P) for points of the curve over F_p12: chords *)
(* and tangents over the vertical through the new point                    *)
LineV(K, T, S, P) ==        \* <<value, T + S>>
  LET l == TLCEval(CSlope(K, T, S))
      R == CAdd(K, T, S)
      v == XSub(K, XSub(K, P[2], T[2]), XMul(K, l, XSub(K, P[1], T[1])))
  IN <<TLCEval(XDiv(K, v, XSub(K, P[1], R[1]))), R>>
RECURSIVE MillerBits(_, _, _, _, _, _)
MillerBits(K, bs, Q, P, f, T) ==
  IF bs = <<>> THEN <<f, T>>
  ELSE LET d == TLCEval(LineV(K, T, T, P))
           f2 == XMul(K, XSq(K, f), d[1])
       IN IF bs[1] = 0 THEN MillerBits(K, Tail(bs), Q, P, TLCEval(f2), d[2])
          ELSE LET a == TLCEval(LineV(K, d[2], Q, P)) IN MillerBits(K, Tail(bs), Q, P, TLCEval(XMul(K, f2, a[1])), a[2])
\* f_(x,Q)(P); for negative x, 1 over f_(|x|,Q) times the vertical through |x|Q
MillerX(C, K, Q, P) ==
  LET m == TLCEval(MillerBits(K, Tail(CTop(C.x)), Q, P, XOne(K), Q))
  IN IF C.neg THEN XInv(K, XMul(K, m[1], XSub(K, P[1], m[2][1]))) ELSE m[1]
\* the twist point as a point of the curve over F_p12
Untwist(C, Q) == LET K == BlsK12(C)
                     wi == TLCEval(XInv(K, XGen(K)))
                     up(a) == FromTower(C, 12, a \o [j \in 1..10 |-> <<>>])
                 IN <<XMul(K, up(Q[1]), XPow(K, wi, <<2>>)), XMul(K, up(Q[2]), XPow(K, wi, <<3>>))>>
FinalExponent(C) == Div(Sub(NatPow(C.p, 12), One), C.n)
\* the library's convention: the cube of the reduced ate pairing
Reduced(C, f) == XPow(BlsK12(C), f, Mul(<<3>>, FinalExponent(C)))
\* P over F_p, Q on the twist, both in the subgroup of order n
MillerPair(C, P, Q) == IF P = Inf \/ Q = Inf THEN XOne(BlsK12(C))
  ELSE MillerX(C, BlsK12(C), TLCEval(Untwist(C, Q)), <<XOf(BlsK12(C), P[1][1]), XOf(BlsK12(C), P[2][1])>>)
RECURSIVE MillerProd(_, _, _)
MillerProd(C, Ps, Qs) == IF Ps = <<>> THEN XOne(BlsK12(C))
  ELSE TLCEval(XMul(BlsK12(C), MillerPair(C, Ps[1], Qs[1]), MillerProd(C, Tail(Ps), Tail(Qs))))
PairingProd(C, Ps, Qs) == TLCEval(Reduced(C, MillerProd(C, Ps, Qs)))

(* endomorphisms of the twist: psi is the Frobenius map of the curve seen  *)
(* through the untwisting, phi the multiplication of x by a cube root of 1 *)
XiPow(C, e) == XPow(BlsK2(C), Xi(C), e)
ConjV(C, a) == <<a[1], SubMod(<<>>, a[2], C.p)>>
Psi(C, P) == IF P = Inf THEN Inf ELSE
  LET K == BlsK2(C) pm == Sub(C.p, One) IN
  <<XMul(K, ConjV(C, P[1]), XInv(K, XiPow(C, Div(pm, <<3>>)))), XMul(K, ConjV(C, P[2]), XInv(K, XiPow(C, Div(pm, <<2>>))))>>
\* [x^2 - x - 1]P + [x - 1]psi(P) + psi(psi(2P))
ClearCof(C, P) ==
  LET K == BlsK2(C)
      xP == TLCEval(CMulX(C, K, P))
      xxP == TLCEval(CMulX(C, K, xP))
  IN CAdd(K, CSub(K, CSub(K, xxP, xP), P), CAdd(K, Psi(C, CSub(K, xP, P)), Psi(C, Psi(C, CAdd(K, P, P)))))

\* p and n from the parameter
BlsPoly(x, neg, c, b) ==
  LET xx == Mul(x, x)
      n == Add(Sub(Mul(xx, xx), xx), One)
      m == IF neg THEN Add(x, One) ELSE Sub(x, One)
      t == Div(Mul(Mul(m, m), n), <<3>>)
  IN [p |-> IF neg THEN Sub(t, x) ELSE Add(t, x), n |-> n, x |-> x, neg |-> neg, c |-> c, b |-> b]
Bls12381 == TLCEval(BlsPoly(FromHex(<<13,2,0,1,0,0,0,0,0,0,0,1,0,0,0,0>>), TRUE, 1, <<4>>))
\* the same construction with parameter -5: F_7207, order 601
BlsToy == TLCEval(BlsPoly(<<5>>, TRUE, 3, <<1>>))
=============================================================================

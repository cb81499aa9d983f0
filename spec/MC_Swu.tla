------------------------------- MODULE MC_Swu -------------------------------
(* The map and the isogeny of hashing to the twist, on small curves over   *)
(* F_p2: the plain simplified SWU of the specification agrees with the     *)
(* RFC's inversion-free straight-line algorithm (appendix F.2) for every   *)
(* field element, its result is on the curve and carries the sign of the   *)
(* input, and Velu's map is a homomorphism onto y^2 = x^3 + B'.            *)
EXTENDS HashCurve
CONSTANTS P, Mutant
p == NatOf(P)
K == TLCEval([p |-> p, r |-> <<Sub(p, One), <<>>>>])
El == { <<NatOf(i), NatOf(j)>> : i \in 0..(P - 1), j \in 0..(P - 1) }
c(n) == XOf(K, NatOf(n % P))
Neg(n) == XNeg(K, c(n))
\* 3-torsion at x0 and a target without linear term: A = -10/3 x0^2, B = 253/108 x0^3
X0 == <<NatOf(2), One>>
ca == TLCEval(XMul(K, XDiv(K, Neg(10), c(3)), XSq(K, X0)))
cb == TLCEval(XMul(K, XDiv(K, c(253), c(108)), XMul(K, X0, XSq(K, X0))))
ZOk(z) == ~IsSquareX(K, z) /\ z # Neg(1) /\ IsSquareX(K, SwuG(K, ca, cb, XDiv(K, cb, XMul(K, z, ca))))
Z == TLCEval(CHOOSE z \in El : ZOk(z))
Sg(a) == IF Mutant = "sgn" THEN XOdd(a[1]) ELSE Sgn0(a)
Cmov(a, b, t) == IF t THEN b ELSE a
SqrtRatio(a, b) == LET r == XDiv(K, a, b) IN
  IF IsSquareX(K, r) THEN <<TRUE, SqrtX(K, Z, r)>> ELSE <<FALSE, SqrtX(K, Z, XMul(K, Z, r))>>
Straight(u) ==
  LET t1 == XMul(K, Z, XSq(K, u))
      t2 == XAdd(K, XSq(K, t1), t1)
      t3 == XMul(K, cb, XAdd(K, t2, XOne(K)))
      t4 == XMul(K, ca, Cmov(Z, XNeg(K, t2), Mutant = "cmov" \/ t2 # XZero(K)))
      t6 == XSq(K, t4)
      gn == XMul(K, XAdd(K, XSq(K, t3), XMul(K, ca, t6)), t3)
      t63 == XMul(K, t6, t4)
      q == TLCEval(SqrtRatio(XAdd(K, gn, XMul(K, cb, t63)), t63))
      y == Cmov(XMul(K, XMul(K, t1, u), q[2]), q[2], q[1])
  IN <<XDiv(K, Cmov(XMul(K, t1, t3), t3, q[1]), t4), Cmov(XNeg(K, y), y, Sg(u) = Sg(y))>>
On(Q) == Q = Inf \/ XSq(K, Q[2]) = SwuG(K, ca, cb, Q[1])
\* addition with a linear term
AddA(Q, R) ==
  IF Q = Inf THEN R ELSE IF R = Inf THEN Q
  ELSE IF Q[1] = R[1] /\ (Q[2] # R[2] \/ Q[2] = XZero(K)) THEN Inf
  ELSE LET l == TLCEval(IF Q = R THEN XDiv(K, XAdd(K, XScale(K, <<3>>, XSq(K, Q[1])), ca), XScale(K, <<2>>, Q[2]))
                                 ELSE XDiv(K, XSub(K, R[2], Q[2]), XSub(K, R[1], Q[1])))
           x == TLCEval(XSub(K, XSub(K, XSq(K, l), Q[1]), R[1]))
       IN TLCEval(<<x, XSub(K, XMul(K, l, XSub(K, Q[1], x)), Q[2])>>)
Iso(Q) == IF Q = Inf THEN Inf ELSE Velu3(K, ca, cb, X0, Q)
Target == TLCEval(LET t == XScale(K, <<2>>, XAdd(K, XScale(K, <<3>>, XSq(K, X0)), ca))
                      u == XScale(K, <<4>>, SwuG(K, ca, cb, X0))
                      w == XAdd(K, u, XMul(K, X0, t))
                  IN XDiv(K, XSub(K, cb, XScale(K, <<7>>, w)), c(729)))
M(u) == TLCEval(Swu(K, ca, cb, Z, u))
VARIABLES ph, u1, u2
Init == ph = "start" /\ u1 = 0 /\ u2 = 0
Next == \/ ph = "start" /\ ph' = "map" /\ u1' \in El /\ u2' = 0
        \/ ph = "map" /\ ph' = "sum" /\ u1' = u1 /\ \E i \in 0..(P - 1) : u2' = <<NatOf(i), NatOf((i * i) % 7)>>
Agree == ph = "map" => M(u1) = Straight(u1)
OnCurve == ph = "map" => LET m == M(u1) IN On(m) /\ (m[2] = XZero(K) \/ Sgn0(m[2]) = Sgn0(u1))
Homo == ph = "sum" => LET a == M(u1) b == M(u2) IN
  /\ COn(K, Target, Iso(a))
  /\ Iso(AddA(a, b)) = CAdd(K, Iso(a), Iso(b))
=============================================================================

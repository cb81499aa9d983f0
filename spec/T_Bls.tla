------------------------------- MODULE T_Bls -------------------------------
(* Sessions of the BLS12-381 gadget: field and point operations (C27), the *)
(* pairing (C28), hashing to G2 (C29).                                     *)
EXTENDS TraceBase, HashCurve
BC == TLCEval(Bls12381)
F2 == TLCEval(BlsK2(BC))
F6 == TLCEval(BlsK6(BC))
F12 == TLCEval(BlsK12(BC))
MyStart(t) == 0

\* the gadget's order of coefficients: C0.B0 C0.B1 C0.B2 C1.B0 C1.B1 C1.B2
Of6(t) == FromTower(BC, 6, t)
At2(t, k) == <<t[2 * k - 1], t[2 * k]>>
\* w^0 w^1 ... w^5 are C0.B0 C1.B0 C0.B1 C1.B1 C0.B2 C1.B2
Of12(t) == FromTower(BC, 12, At2(t, 1) \o At2(t, 4) \o At2(t, 2) \o At2(t, 5) \o At2(t, 3) \o At2(t, 6))
Z2 == <<<<>>, <<>>>>
\* an element of F_p12 from its coefficients of w^0 .. w^5 in F_p2
OfW(a0, a1, a2, a3, a4, a5) == FromTower(BC, 12, a0 \o a1 \o a2 \o a3 \o a4 \o a5)
Z6(b0, b1, b2) == Of6(b0 \o b1 \o b2)
BV == [j \in 1..6 |-> IF j = 2 THEN One ELSE <<>>]      \* v, the generator of F_p6
XiP(k, j) == XPow(F2, Xi(BC), Div(Mul(NatOf(j), Sub(NatPow(BC.p, k), One)), <<6>>))
Cyclo(x) == LET f2 == TLCEval(XFrob(F12, x, 2)) IN XMul(F12, x, XFrob(F12, f2, 2)) = f2 /\ x # XZero(F12)
Conj12(x) == XFrob(F12, x, 6)

(* points: affine <<x0, x1, y0, y1>> with (0, 0) for infinity; Jacobian    *)
(* (X/Z^2, Y/Z^3); projective (X/Z, Y/Z)                                   *)
OfA(t) == IF t = <<<<>>, <<>>, <<>>, <<>>>> THEN Inf ELSE <<At2(t, 1), At2(t, 2)>>
OfJ(t) == LET z == At2(t, 3) IN
  IF z = Z2 THEN Inf
  ELSE LET i == TLCEval(XInv(F2, z)) i2 == TLCEval(XSq(F2, i))
       IN <<XMul(F2, At2(t, 1), i2), XMul(F2, At2(t, 2), XMul(F2, i, i2))>>
OfP(t) == LET z == At2(t, 3) IN
  IF z = Z2 THEN Inf ELSE LET i == TLCEval(XInv(F2, z)) IN <<XMul(F2, At2(t, 1), i), XMul(F2, At2(t, 2), i)>>
On2(P) == COn(F2, TwistB(BC), P)
\* multiplication of x by the cube root of one under which the map is
\* multiplication by x^2 - 1 on the subgroup
Beta2 == TLCEval(XPow(F2, Xi(BC), Div(Sub(NatPow(BC.p, 2), One), <<3>>)))
PhiG(P) == IF P = Inf THEN Inf ELSE <<XMul(F2, Beta2, P[1]), P[2]>>
AbsX(P) == CMul(F2, BC.x, P)

(* the line through S and T (or the tangent) on the twist, as the gadget   *)
(* keeps it: r0 + r1 x w^2 + r2 y w^3 up to a factor from F_p2             *)
IsLine(ln, S, T) == LET m == TLCEval(CSlope(F2, S, T)) IN
  /\ At2(ln, 3) # Z2
  /\ At2(ln, 2) = XNeg(F2, XMul(F2, m, At2(ln, 3)))
  /\ At2(ln, 1) = XMul(F2, At2(ln, 3), XSub(F2, XMul(F2, m, S[1]), S[2]))

OfG1(t) == IF t = <<<<>>, <<>>>> THEN Inf ELSE <<<<t[1]>>, <<t[2]>>>>
\* BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_
Dst == <<66, 76, 83, 95, 83, 73, 71, 95, 66, 76, 83, 49, 50, 51, 56, 49, 71, 50, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 83, 87, 85, 95, 82, 79, 95, 80, 79, 80, 95>>

Head6(t) == SubSeq(t, 1, 6)
Un2 == {"2conj", "2nr", "2nrinv", "2f11", "2f12", "2f13", "2f14", "2f15", "2f21", "2f22", "2f23", "2f24", "2f25", "2neg", "2sq", "2dbl", "2half", "2twist"}
Val2(op, x) ==
  CASE op = "2conj" -> ConjV(BC, x)
    [] op = "2nr" -> XMul(F2, x, Xi(BC))
    [] op = "2nrinv" -> XDiv(F2, x, Xi(BC))
    [] op = "2neg" -> XNeg(F2, x)
    [] op = "2sq" -> XSq(F2, x)
    [] op = "2dbl" -> XAdd(F2, x, x)
    [] op = "2half" -> XScale(F2, InvMod(<<2>>, BC.p), x)
    [] op = "2twist" -> XMul(F2, x, TwistB(BC))
    [] op = "2f11" -> XMul(F2, x, XiP(1, 1)) [] op = "2f12" -> XMul(F2, x, XiP(1, 2)) [] op = "2f13" -> XMul(F2, x, XiP(1, 3))
    [] op = "2f14" -> XMul(F2, x, XiP(1, 4)) [] op = "2f15" -> XMul(F2, x, XiP(1, 5))
    [] op = "2f21" -> XMul(F2, x, XiP(2, 1)) [] op = "2f22" -> XMul(F2, x, XiP(2, 2)) [] op = "2f23" -> XMul(F2, x, XiP(2, 3))
    [] op = "2f24" -> XMul(F2, x, XiP(2, 4)) [] op = "2f25" -> XMul(F2, x, XiP(2, 5))
BitOf(b) == IF b THEN <<One>> ELSE <<<<>>>>

\* an operation that is always defined: accepted, with exactly this result
Total(e, v, w) == e.acc = 1 /\ v = w
\* one that is defined only under d: then so, otherwise nothing is promised
Part(e, d, v(_), w) == ~d \/ (e.acc = 1 /\ v(e.out) = w)
Same(t) == t
\* affine formulas
AffineOk(e, d, w) == Part(e, d, OfA, w)
Defd(P, Q) == P # Inf /\ Q # Inf /\ P[1] # Q[1]

OpE(e) ==
  LET a == IF "a" \in DOMAIN e THEN e.a ELSE <<>> o == e.out op == e.op IN
  CASE op \in Un2 -> Total(e, o, Val2(op, a[1]))
    [] op = "2inv" -> Part(e, a[1] # Z2, Same, XInv(F2, a[1]))
    [] op = "2mul" -> Total(e, o, XMul(F2, a[1], a[2]))
    [] op = "2add" -> Total(e, o, XAdd(F2, a[1], a[2]))
    [] op = "2sub" -> Total(e, o, XSub(F2, a[1], a[2]))
    [] op = "2div" -> Part(e, a[2] # Z2, Same, XDiv(F2, a[1], a[2]))
    [] op = "2scale" -> Total(e, o, XScale(F2, a[2][1], a[1]))
    [] op = "2sel1" -> Total(e, o, a[1])
    [] op = "2sel0" -> Total(e, o, a[2])
    [] op = "2one" -> Total(e, o, XOne(F2))
    [] op = "2zero" -> Total(e, o, Z2)
    [] op \in {"2eq", "6eq", "12eq"} -> (e.acc = 1) = (a[1] = a[2])
    [] op = "12c0eq" -> (e.acc = 1) = (Head6(a[1]) = Head6(a[2]))
    [] op = "2exp" -> \/ e.neg = 1 /\ a[1] = Z2
                      \/ /\ e.kept = 1
                         /\ Total(e, o, XPow(F2, IF e.neg = 1 THEN XInv(F2, a[1]) ELSE a[1], e.k))
    [] op = "6add" -> Total(e, Of6(o), XAdd(F6, Of6(a[1]), Of6(a[2])))
    [] op = "6sub" -> Total(e, Of6(o), XSub(F6, Of6(a[1]), Of6(a[2])))
    [] op = "6mul" -> Total(e, Of6(o), XMul(F6, Of6(a[1]), Of6(a[2])))
    [] op = "6neg" -> Total(e, Of6(o), XNeg(F6, Of6(a[1])))
    [] op = "6dbl" -> Total(e, Of6(o), XScale(F6, <<2>>, Of6(a[1])))
    [] op = "6sq" -> Total(e, Of6(o), XSq(F6, Of6(a[1])))
    [] op = "6nr" -> Total(e, Of6(o), XMul(F6, BV, Of6(a[1])))
    [] op = "6inv" -> Part(e, Of6(a[1]) # XZero(F6), Of6, XInv(F6, Of6(a[1])))
    [] op = "6by2" -> Total(e, Of6(o), XMul(F6, Of6(a[1]), Z6(a[2], Z2, Z2)))
    [] op = "6by1" -> Total(e, Of6(o), XMul(F6, Of6(a[1]), Z6(Z2, a[2], Z2)))
    [] op = "6by01" -> Total(e, Of6(o), XMul(F6, Of6(a[1]), Z6(a[2], a[3], Z2)))
    [] op = "12conj" -> Total(e, Of12(o), Conj12(Of12(a[1])))
    [] op = "12sq" -> Total(e, Of12(o), XSq(F12, Of12(a[1])))
    [] op = "12inv" -> Part(e, Of12(a[1]) # XZero(F12), Of12, XInv(F12, Of12(a[1])))
    [] op = "12frob1" -> Total(e, Of12(o), XFrob(F12, Of12(a[1]), 1))
    [] op = "12frob2" -> Total(e, Of12(o), XFrob(F12, Of12(a[1]), 2))
    [] op = "12frob3" -> Total(e, Of12(o), XFrob(F12, Of12(a[1]), 3))
    [] op = "12mul" -> Total(e, Of12(o), XMul(F12, Of12(a[1]), Of12(a[2])))
    [] op = "12one" -> Total(e, Of12(o), XOne(F12))
    [] op = "12by034" -> Total(e, Of12(o), XMul(F12, Of12(a[1]), OfW(a[2], a[3], Z2, a[4], Z2, Z2)))
    [] op = "12by014" -> Total(e, Of12(o), XMul(F12, Of12(a[1]), OfW(a[2], Z2, a[3], a[4], Z2, Z2)))
    [] op = "12s034" -> Total(e, Of12(o), XMul(F12, OfW(a[1], a[2], Z2, a[3], Z2, Z2), OfW(a[4], a[5], Z2, a[6], Z2, Z2)))
    [] op = "12s014" -> Total(e, Of12(o), XMul(F12, OfW(a[1], Z2, a[2], a[3], Z2, Z2), OfW(a[4], Z2, a[5], a[6], Z2, Z2)))
    [] op = "12csq" -> LET x == Of12(a[1]) IN Part(e, Cyclo(x), Of12, XSq(F12, x))
    [] op = "12ccomp" -> LET x == Of12(a[1]) s2 == XSq(F12, x) IN
         ~Cyclo(x) \/ (e.acc = 1 /\ LET q == Of12(o) IN
            \* the four compressed coefficients: w, w^2, w^4, w^5
            \A k \in {2, 3, 5, 6} : q[k] = s2[k] /\ q[k + 6] = s2[k + 6])
    [] op = "12karabina" -> LET x == Of12(a[1]) IN Part(e, Cyclo(x), Of12, x)
    [] op = "12half" -> LET x == Of12(a[1]) IN Part(e, Cyclo(x), Of12, XInv(F12, XPow(F12, x, Div(BC.x, <<2>>))))
    [] op = "12expt" -> LET x == Of12(a[1]) IN Part(e, Cyclo(x), Of12, XInv(F12, XPow(F12, x, BC.x)))
    [] op \in {"1nz", "2nz", "anz"} -> Total(e, o, BitOf(\E i \in 1..Len(a[1]) : a[1][i] # <<>>))
    [] op \in {"1n1", "2n1"} -> Total(e, o, BitOf(\E i \in 1..Len(a[1]) : a[1][i] # (IF i = 1 THEN One ELSE <<>>)))
    [] op \in {"1ne", "2ne"} -> Total(e, o, BitOf(a[1] # a[2]))
    [] op = "2nzs" -> Total(e, o, BitOf(a[1] # a[2]))
    [] op = "2n1s" -> Total(e, o, BitOf(XSub(F2, a[1], a[2]) # XOne(F2)))
    [] op = "2nes" -> Total(e, o, BitOf(XSub(F2, a[1], a[2]) # a[3]))
    [] op = "make" -> Total(e, o, a[1])
    [] op = "aadd" -> LET p == OfA(a[1]) q == OfA(a[2]) IN AffineOk(e, Defd(p, q), CAdd(F2, p, q))
    [] op = "asub" -> LET p == OfA(a[1]) q == OfA(a[2]) IN AffineOk(e, Defd(p, q), CSub(F2, p, q))
    [] op = "adbl" -> LET p == OfA(a[1]) IN AffineOk(e, p # Inf /\ p[2] # Z2, CAdd(F2, p, p))
    [] op = "ada" -> LET p == OfA(a[1]) q == OfA(a[2]) r == CAdd(F2, p, q) IN
         AffineOk(e, Defd(p, q) /\ r # Inf /\ r[1] # p[1], CAdd(F2, r, p))
    [] op \in {"aneg", "aneg2"} -> Total(e, OfA(o), CNeg(F2, OfA(a[1])))
    [] op = "aphi" -> Total(e, OfA(o), PhiG(OfA(a[1])))
    [] op = "apsi" -> Total(e, OfA(o), Psi(BC, OfA(a[1])))
    [] op \in {"ax", "ax2"} -> LET p == OfA(a[1]) IN AffineOk(e, p # Inf, AbsX(p))
    [] op = "aclear" -> LET p == OfA(a[1]) w == ClearCof(BC, p) IN
         IF w # Inf THEN Total(e, OfA(o), w) ELSE e.acc = 1 => OfA(o) = w
    [] op = "ajac" -> Total(e, OfJ(o), OfA(a[1]))
    [] op = "aproj" -> AffineOk(e, FALSE, Inf) /\ (OfA(a[1]) # Inf => Total(e, OfP(o), OfA(a[1])))
    [] op = "jadd" -> Total(e, OfJ(o), CAdd(F2, OfJ(a[1]), OfJ(a[2])))
    [] op = "jsub" -> Total(e, OfJ(o), CSub(F2, OfJ(a[1]), OfJ(a[2])))
    [] op = "jdbl" -> LET p == OfJ(a[1]) IN Total(e, OfJ(o), CAdd(F2, p, p))
    [] op = "jneg" -> Total(e, OfJ(o), CNeg(F2, OfJ(a[1])))
    [] op = "jphi" -> Total(e, OfJ(o), PhiG(OfJ(a[1])))
    [] op = "jpsi" -> Total(e, OfJ(o), Psi(BC, OfJ(a[1])))
    [] op = "jx" -> Total(e, OfJ(o), AbsX(OfJ(a[1])))
    [] op = "jclear" -> Total(e, OfJ(o), ClearCof(BC, OfJ(a[1])))
    [] op = "jaff" -> Total(e, OfA(o), OfJ(a[1]))
    [] op = "pdbl" -> LET p == OfP(a[1]) IN
         p = Inf \/ p[2] = Z2 \/ (Total(e, OfP(Head6(o)), CAdd(F2, p, p)) /\ IsLine(SubSeq(o, 7, 12), p, p))
    [] op = "padd" -> LET p == OfP(a[1]) q == OfA(a[2]) IN
         p = Inf \/ q = Inf \/ p[1] = q[1]
         \/ (Total(e, OfP(Head6(o)), CAdd(F2, p, q)) /\ IsLine(SubSeq(o, 7, 12), p, q))
    \* the pairing, of lists of the same length
    [] op \in {"pair", "miller", "one", "is"} ->
         IF Len(e.p) = 0 \/ Len(e.p) # Len(e.q) THEN e.acc = 0
         ELSE LET w == PairingProd(BC, [i \in 1..Len(e.p) |-> OfG1(e.p[i])], [i \in 1..Len(e.q) |-> OfA(e.q[i])]) IN
             (CASE op = "pair" -> Total(e, Of12(o), w)
                [] op = "miller" -> e.acc = 1 /\ Of12(o) # XZero(F12) /\ Reduced(BC, Of12(o)) = w
                [] op = "one" -> (e.acc = 1) = (w = XOne(F12))
                [] op = "is" -> (e.acc = 1) = (w = Of12(e.a[1])))
    [] op = "fexp" -> LET x == Of12(a[1]) IN Part(e, x # XZero(F12), Of12, Reduced(BC, x))
    \* hashing to G2
    [] op = "xmd" -> IF e.bytes = 0 THEN e.acc = 0 ELSE Total(e, o, ExpandXmd(e.m, Dst, 64 * e.n))
    [] op = "field" -> Total(e, [i \in 1..(Len(o) \div 2) |-> At2(o, i)], HashField(BC.p, e.m, Dst, e.n \div 2, 64 * e.n))
    [] op = "map" -> Total(e, OfA(o), MapG2(a[1]))
    [] op = "mapd" -> Total(e, OfA(o), MapG2(XSub(F2, a[1], a[2])))
    [] op = "iso" -> Part(e, At2(a[1], 1) # G2X0, OfA, IsoG2(<<At2(a[1], 1), At2(a[1], 2)>>))
    [] op \in {"encode", "encodej"} -> Total(e, OfA(o), EncodeG2(e.m, Dst))
    [] op \in {"hash", "hashj"} -> Total(e, OfA(o), HashG2(e.m, Dst))
    [] OTHER -> FALSE

\* operations that compare representatives may refuse those beyond the modulus
Compares == {"1nz", "2nz", "anz", "1n1", "2n1", "1ne", "2ne", "2nzs", "2n1s", "2nes", "ajac", "jadd", "jsub", "jx", "jclear", "jaff", "12karabina", "12half", "12expt", "fexp", "pair", "miller", "map", "mapd", "encode", "encodej", "hash", "hashj"}
MyPost(t, q, e) == Ok((e.raw = 1 /\ e.op \in Compares /\ e.acc = 0) \/ OpE(e), q)
MyExpect(t, q, e) == [op |-> e.op, want |-> "the operation of the field or the curve"]
=============================================================================

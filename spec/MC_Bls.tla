------------------------------- MODULE MC_Bls -------------------------------
(* The pairing specification on the BLS12 curve with parameter -5 (p =     *)
(* 7207, order 601): the textbook pairing is bilinear and non-degenerate,  *)
(* a product of pairings is one exactly when the exponents cancel, psi is  *)
(* multiplication by the parameter on the subgroup, and clearing the       *)
(* cofactor lands there from every point of the twist.                     *)
EXTENDS Bls
CONSTANTS Deep, Mutant
C == TLCEval(BlsToy)
K == TLCEval(BlsK2(C))
K12 == TLCEval(BlsK12(C))
G1 == << <<NatOf(2587)>>, <<NatOf(1501)>> >>
G2 == << <<NatOf(5193), NatOf(3452)>>, <<NatOf(6221), NatOf(966)>> >>
Scal == IF Deep THEN {0, 1, 2, 3, 5, 57, 120, 300, 599, 600} ELSE {0, 1, 3, 300, 600}
P1(a) == CMul(BlsK1(C), NatOf(a), G1)
P2(b) == CMul(K, NatOf(b), G2)
\* the wrong twist: multiplies where it should divide
BadUp(Q) == LET w == XGen(K12) up(a) == FromTower(C, 12, a \o [j \in 1..10 |-> <<>>])
            IN <<XMul(K12, up(Q[1]), XPow(K12, w, <<2>>)), XMul(K12, up(Q[2]), XPow(K12, w, <<3>>))>>
Pair(P, Q) == IF Mutant = "untwist" /\ P # Inf /\ Q # Inf
  THEN Reduced(C, MillerX(C, K12, TLCEval(BadUp(Q)), <<XOf(K12, P[1][1]), XOf(K12, P[2][1])>>))
  ELSE PairingProd(C, <<P>>, <<Q>>)
E1 == TLCEval(Pair(G1, G2))
Full == << <<NatOf(0), One>>, <<NatOf(0), NatOf(3530)>> >>
Clear(P) == IF Mutant = "cof" THEN
    LET xP == CMulX(C, K, P) IN CAdd(K, CSub(K, CSub(K, CMulX(C, K, xP), xP), P), Psi(C, CSub(K, xP, P)))
  ELSE ClearCof(C, P)
VARIABLES ph, a, b, c, d
Init == ph = "start" /\ a = 0 /\ b = 0 /\ c = 0 /\ d = 0
Next == /\ ph = "start"
        /\ \/ ph' = "pair" /\ a' \in Scal /\ b' \in Scal /\ c' = 0 /\ d' = 0
           \/ ph' = "prod" /\ a' \in Scal \ {0} /\ b' = 1 /\ c' \in Scal /\ d' \in {0, 1, 2, 601 - a'}
           \/ ph' = "point" /\ a' \in 1..(IF Deep THEN 200 ELSE 40) /\ b' \in Scal /\ c' = 0 /\ d' = 0
           \/ ph' = "tower" /\ a' \in 1..20 /\ b' \in 1..20 /\ c' = 0 /\ d' = 0
Bilinear == ph = "pair" => /\ Pair(P1(a), P2(b)) = XPow(K12, E1, NatOf(a * b))
                           /\ E1 # XOne(K12) /\ XPow(K12, E1, C.n) = XOne(K12)
Product == ph = "prod" =>
  (PairingProd(C, <<P1(a), P1(c)>>, <<P2(b), P2(d)>>) = XOne(K12)) = ((a * b + c * d) % 601 = 0)
Points == ph = "point" =>
  LET F == CMul(K, NatOf(a), Full) S == P2(b) T == CAdd(K, F, S) IN
  /\ COn(K, TwistB(C), T) /\ COn(K, TwistB(C), Psi(C, T))
  /\ Psi(C, T) = CAdd(K, Psi(C, F), Psi(C, S))
  /\ Psi(C, S) = CMulX(C, K, S)
  /\ InSubgroup(C, K, Clear(T))
El(n, s) == [j \in 1..n |-> NatOf((7919 * s + 104729 * j * j + 31 * j * s) % 7207)]
I2(n) == [j \in 1..n |-> IF j = 2 THEN One ELSE <<>>]
Tower == ph = "tower" => \A n \in {2, 6, 12} :
  LET Kn == IF n = 2 THEN K ELSE BlsKn(C, n) x == El(n, a) y == El(n, b)
      tp == IF n = 2 THEN x ELSE FromTower(C, n, x)
  IN /\ (n = 2 \/ (ToTower(C, n, tp) = x /\ XSq(Kn, FromTower(C, n, I2(n))) = XNeg(Kn, XOne(Kn))))
     /\ XMul(Kn, tp, y) = XMul(Kn, y, tp)
     /\ XMul(Kn, tp, XInv(Kn, tp)) = XOne(Kn)
     /\ XFrob(Kn, XMul(Kn, tp, y), 1) = XMul(Kn, XFrob(Kn, tp, 1), XFrob(Kn, y, 1))
     /\ XFrob(Kn, tp, n) = tp
=============================================================================

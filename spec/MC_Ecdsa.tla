------------------------------ MODULE MC_Ecdsa ------------------------------
(* ECDSA recovery on small curves, exhaustively: whoever signed is          *)
(* recovered, the recovered key verifies, and another message, nonce parity *)
(* or signature half never recovers the same key.                           *)
EXTENDS Ecdsa, TLC
CONSTANTS P, B7, GX, GY, N, Mutant
N1(x) == NatOf(x)
C == TLCEval([p |-> N1(P), a |-> <<>>, b |-> N1(B7), g |-> <<N1(GX), N1(GY)>>, n |-> N1(N)])
VARIABLES d, z, k
Init == d \in 1..(N - 1) /\ z = 0 /\ k = 0
Next == k = 0 /\ k' \in 1..(N - 1) /\ z' \in 0..(N - 1) /\ UNCHANGED d
Rec(zz, v, r, w) ==
  IF Mutant = "noneg" THEN \* forgets the sign of the hash term
     LET R == Lift(C, r, v % 2 = 1) ri == InvMod(r, C.n) IN
     IF R = Infinity THEN R ELSE PAdd(C, PMul(C, MulMod(w, ri, C.n), R), PMul(C, MulMod(zz, ri, C.n), C.g))
  ELSE Recover(C, zz, v, r, w)
Signer == k > 0 => LET S == Sign(C, N1(d), N1(z), N1(k)) IN
  S.r # Zero /\ S.s # Zero =>
    LET Q == PMul(C, N1(d), C.g) IN
    /\ Rec(N1(z), S.v, S.r, S.s) = Q
    /\ Verify(C, Q, N1(z), S.r, S.s)
    \* the other half of the pair names the same signer
    /\ Rec(N1(z), IF S.v % 2 = 0 THEN S.v + 1 ELSE S.v - 1, S.r, Sub(C.n, S.s)) = Q
Altered == k > 0 => LET S == Sign(C, N1(d), N1(z), N1(k)) IN
  S.r # Zero /\ S.s # Zero =>
    LET Q == PMul(C, N1(d), C.g) IN
    /\ Rec(N1((z + 1) % N), S.v, S.r, S.s) # Q
    /\ Rec(N1(z), IF S.v % 2 = 0 THEN S.v + 1 ELSE S.v - 1, S.r, S.s) # Q
    /\ LET w == AddMod(S.s, One, C.n) IN w # Zero => Rec(N1(z), S.v, S.r, w) # Q
Base == k > 0 => OnCurve(C, C.g) /\ PMul(C, C.n, C.g) = Infinity /\ OnCurve(C, PMul(C, N1(k), C.g))
=============================================================================

------------------------------ MODULE Poseidon ------------------------------
(* Poseidon over the BN254 scalar field with the parameters of circomlib:   *)
(* x^5, 8 full rounds, a table of partial rounds; the round constants and   *)
(* the Cauchy matrix come from the Grain register seeded with the           *)
(* parameters, as the Poseidon paper prescribes.                            *)
EXTENDS Primes, Sequences, TLC
RP == <<56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68>>
RF == 8
(* The Grain register: 80 bits, oldest first.                               *)
RECURSIVE BitsBE(_, _)
BitsBE(x, n) == IF n = 0 THEN <<>> ELSE BitsBE(x \div 2, n - 1) \o <<x % 2>>
GrainInit(t) == BitsBE(1, 2) \o BitsBE(0, 4) \o BitsBE(254, 12) \o BitsBE(t, 12) \o BitsBE(RF, 10) \o BitsBE(RP[t - 1], 10) \o [i \in 1..30 |-> 1]
GrainNew(g) == (g[63] + g[52] + g[39] + g[24] + g[14] + g[1]) % 2
GrainStep(g) == Tail(g) \o <<GrainNew(g)>>
RECURSIVE GrainSkip(_, _)
GrainSkip(g, n) == IF n = 0 THEN g ELSE GrainSkip(TLCEval(GrainStep(g)), n - 1)
\* self-shrinking: of two bits the second counts if the first is set
RECURSIVE GrainBits(_, _, _)
GrainBits(g, n, acc) ==
  IF n = 0 THEN <<g, acc>>
  ELSE LET a == TLCEval(GrainStep(g)) b == TLCEval(GrainStep(a))
       IN IF GrainNew(g) = 1 THEN GrainBits(b, n - 1, TLCEval(<<GrainNew(a)>> \o acc)) ELSE GrainBits(b, n, acc)
\* n field elements; values outside the field are drawn again (round constants) or reduced (matrix)
RECURSIVE GrainDraw(_, _, _)
GrainDraw(g, n, again) ==
  IF n = 0 THEN <<g, <<>>>>
  ELSE LET r == TLCEval(GrainBits(g, 254, <<>>)) x == FromBits(r[2])
       IN IF again /\ Cmp(x, P_BN254) # 0 THEN GrainDraw(r[1], n, again)
          ELSE LET q == TLCEval(GrainDraw(r[1], n - 1, again)) IN <<q[1], <<Mod(x, P_BN254)>> \o q[2]>>
DPoseidonParams(t) ==
  LET c == TLCEval(GrainDraw(TLCEval(GrainSkip(TLCEval(GrainInit(t)), 160)), (RF + RP[t - 1]) * t, TRUE))
      m == TLCEval(GrainDraw(c[1], 2 * t, FALSE)[2])
  IN [c |-> c[2],
      m |-> TLCEval([i \in 1..t |-> [j \in 1..t |-> PowMod(AddMod(m[i], m[t + j], P_BN254), Sub(P_BN254, <<2>>), P_BN254)]])]
PoseidonParams(t) == DPoseidonParams(t)

Pow5(x) == PowMod(x, <<5>>, P_BN254)
RECURSIVE Dot(_, _, _)
Dot(a, b, i) == IF i = 0 THEN <<>> ELSE AddMod(MulMod(a[i], b[i], P_BN254), Dot(a, b, i - 1), P_BN254)
RECURSIVE PRounds(_, _, _, _)
PRounds(P, t, st, r) ==
  IF r = RF + RP[t - 1] THEN st
  ELSE LET a == TLCEval([i \in 1..t |-> AddMod(st[i], P.c[r * t + i], P_BN254)])
           full == r < RF \div 2 \/ r >= RF \div 2 + RP[t - 1]
           s == TLCEval([i \in 1..t |-> IF full \/ i = 1 THEN Pow5(a[i]) ELSE a[i]])
       IN PRounds(P, t, TLCEval([i \in 1..t |-> Dot(P.m[i], s, t)]), r + 1)
DPoseidonHash(xs) == PRounds(TLCEval(PoseidonParams(Len(xs) + 1)), Len(xs) + 1, TLCEval(<<<<>>>> \o xs), 0)[1]
\* the digest of 1..16 values of the field
PoseidonHash(xs) == DPoseidonHash(xs)
PoseidonDefined(xs) == Len(xs) \in 1..16 /\ \A i \in 1..Len(xs) : Cmp(xs[i], P_BN254) = 0
=============================================================================

----------------------------- MODULE MC_Edwards -----------------------------
(* Small twisted Edwards curves, exhaustively: the group laws, the two       *)
(* multiplication algorithms of the gadget against repeated addition, and    *)
(* the verification equation: every signature verifies, a circuit that       *)
(* checks what the gadget checks accepts exactly the valid ones.             *)
EXTENDS Edwards, TLC
CONSTANTS P, D, GX, GY, N, Bits, Mutant
C == TLCEval([p |-> NatOf(P), d |-> NatOf(D), g |-> <<NatOf(GX), NatOf(GY)>>, n |-> NatOf(N), cof |-> <<8>>])
Plane == TLCEval({<<NatOf(x), NatOf(y)>> : x \in 0..(P - 1), y \in 0..(P - 1)})
Pts == TLCEval({q \in Plane : EdOn(C, q)})
Sub8 == TLCEval({EdMul(C, NatOf(k), C.g) : k \in 0..(N - 1)})
VARIABLES ph, u, v, w, k, h
vs == <<ph, u, v, w, k, h>>
Init == ph = "start" /\ u = EdO /\ v = EdO /\ w = EdO /\ k = 0 /\ h = 0
Next == /\ ph = "start"
        /\ \/ ph' = "group" /\ u' \in Pts /\ v' \in Pts /\ w' \in {EdO} \cup Sub8 \cup {<<<<>>, NatOf(P - 1)>>} /\ UNCHANGED <<k, h>>
           \/ ph' = "mul" /\ u' \in Pts /\ k' \in 0..(2 ^ Bits - 1) /\ UNCHANGED <<v, w, h>>
           \/ ph' = "mul2" /\ u' \in Pts /\ v' \in {C.g, EdNeg(C, C.g), EdO, <<<<>>, NatOf(P - 1)>>} /\ k' \in 0..15 /\ h' \in 0..15 /\ UNCHANGED w
           \* the gadget: key u, R = v (anything in the plane), S = k, h
           \/ ph' = "ver" /\ u' \in {C.g, EdAdd(C, C.g, <<<<>>, NatOf(P - 1)>>), EdO, <<NatOf(2), NatOf(3)>>} /\ v' \in Plane /\ k' \in 0..(2 * N) /\ h' \in 0..N /\ UNCHANGED w
           \* a signer with secret k, nonce from h
           \/ ph' = "sign" /\ k' \in 0..(N - 1) /\ h' \in 0..(N * N - 1) /\ UNCHANGED <<u, v, w>>
Group == ph = "group" => LET s == EdAdd(C, u, v) IN
  /\ s \in Pts /\ s = EdAdd(C, v, u) /\ EdAdd(C, u, EdO) = u /\ EdAdd(C, u, EdNeg(C, u)) = EdO
  /\ EdAdd(C, s, w) = EdAdd(C, u, EdAdd(C, v, w))
RECURSIVE Times(_, _)
Times(n, q) == IF n = 0 THEN EdO ELSE EdAdd(C, q, Times(n - 1, q))
\* the gadget's two bits at a time, top first, with a single bit left over
\* when the number of bits is odd
BitAt(s, i) == (s \div (2 ^ i)) % 2
Look(b1, b0, q, q2, q3) == IF b1 = 1 THEN (IF b0 = 1 THEN q3 ELSE q2) ELSE IF b0 = 1 THEN q ELSE EdO
Dbl(q) == EdAdd(C, q, q)
RECURSIVE Window(_, _, _, _)
Window(s, i, q, acc) ==
  IF i >= 1 THEN Window(s, i - 2, q, EdAdd(C, Dbl(Dbl(acc)), Look(BitAt(s, i), BitAt(s, i - 1), q, Dbl(q), EdAdd(C, Dbl(q), q))))
  ELSE acc
WMul(s, q, b) == LET n == b - 1 r == Window(s, n - 2, q, Look(BitAt(s, n), BitAt(s, n - 1), q, Dbl(q), EdAdd(C, Dbl(q), q)))
                 IN IF n % 2 = 0 /\ Mutant # "oddbit" THEN (IF BitAt(s, 0) = 1 THEN EdAdd(C, Dbl(r), q) ELSE Dbl(r)) ELSE r
RECURSIVE Shamir(_, _, _, _, _, _)
Shamir(s1, s2, i, q1, q2, acc) ==
  IF i < 0 THEN acc
  ELSE Shamir(s1, s2, i - 1, q1, q2, EdAdd(C, Dbl(acc), Look(BitAt(s2, i), BitAt(s1, i), q1, q2, EdAdd(C, q1, q2))))
Single == ph = "mul" => LET t == Times(k, u) IN EdMul(C, NatOf(k), u) = t /\ WMul(k, u, Bits) = t /\ WMul(k, u, Bits + 1) = t
Double == ph = "mul2" => Shamir(k, h, 4, u, v, EdO) = EdAdd(C, Times(k, u), Times(h, v))
\* the gadget's formulas are those of the group only on the curve; elsewhere
\* they are still numbers, and a prover may use them
GDbl(q) == LET xx == MulMod(q[1], q[1], C.p) yy == MulMod(q[2], q[2], C.p)
               e == SubMod(yy, xx, C.p) f == SubMod(<<2>>, e, C.p)
           IN IF e = Zero \/ f = Zero THEN <<One, Zero>> \* no inverse, no witness
              ELSE <<MulMod(MulMod(<<2>>, MulMod(q[1], q[2], C.p), C.p), InvMod(e, C.p), C.p),
                     MulMod(AddMod(yy, xx, C.p), InvMod(f, C.p), C.p)>>
Accepts(A, R, s, hh) ==
  /\ Mutant = "rfree" \/ EdOn(C, R)
  /\ EdOn(C, A)
  /\ Mutant = "sfree" \/ s < N
  /\ LET Q == Shamir(s, hh % N, Bits - 1, C.g, EdNeg(C, A), EdO) IN GDbl(GDbl(GDbl(EdAdd(C, EdNeg(C, Q), R)))) = EdO
Exact == ph = "ver" => (Accepts(u, v, k, h) <=> EdValid(C, u, v, NatOf(k), NatOf(h)))
Signer == ph = "sign" => LET A == EdMul(C, NatOf(k), C.g) sg == EdSign(C, NatOf(k), NatOf(h \div N), NatOf(h % N)) IN
  /\ EdValid(C, A, sg.R, sg.s, NatOf(h % N))
  \* another hash (another message), another S: never
  /\ k # 0 => ~EdValid(C, A, sg.R, sg.s, NatOf((h + 1) % N))
  /\ ~EdValid(C, A, sg.R, AddMod(sg.s, One, C.n), NatOf(h % N))
  /\ ~EdValid(C, A, sg.R, Add(sg.s, C.n), NatOf(h % N))
  /\ ~EdValid(C, A, EdAdd(C, sg.R, C.g), sg.s, NatOf(h % N))
\* the constants of the real curve
E1 == TLCEval(Ed25519)
Const == ph = "start" => /\ EdOn(E1, E1.g) /\ ~Odd(E1.g[1]) /\ EdMul(E1, E1.n, E1.g) = EdO
                         /\ PowMod(E1.d, Div(E1.p, <<2>>), E1.p) = Sub(E1.p, One)
                         /\ PowMod(Sub(E1.p, One), Div(E1.p, <<2>>), E1.p) = One
=============================================================================

-------------------------------- MODULE Mimc --------------------------------
(* MiMC in Miyaguchi-Preneel mode, as the native hashers of gnark-crypto     *)
(* define it: the round constants are a Keccak-256 chain from "seed".        *)
EXTENDS Primes, Keccak
Curve(name) == CASE name = "bn254" -> [p |-> P_BN254, n |-> 110, e |-> 5]
                 [] name = "bls377" -> [p |-> P_BLS377, n |-> 62, e |-> 17]
                 [] name = "bw761" -> [p |-> P_BW761, n |-> 163, e |-> 5]
RECURSIVE ConstsFrom(_, _, _)
ConstsFrom(h, n, p) == IF n = 0 THEN <<>> ELSE <<Mod(FromBytes(h), p)>> \o ConstsFrom(Keccak256(h), n - 1, p)
\* the hasher of a curve with its constants filled in
Hasher(name) == LET c == Curve(name) IN
  [p |-> c.p, e |-> NatOf(c.e), k |-> ConstsFrom(Keccak256(Keccak256(<<115, 101, 101, 100>>)), c.n, c.p)]
RECURSIVE Rounds(_, _, _, _)
Rounds(H, m, key, i) == IF i > Len(H.k) THEN AddMod(m, key, H.p)
  ELSE Rounds(H, PowMod(AddMod(AddMod(m, key, H.p), H.k[i], H.p), H.e, H.p), key, i + 1)
Encrypt(H, m, key) == Rounds(H, m, key, 1)
MAbsorb(H, h, x) == AddMod(AddMod(h, Encrypt(H, x, h), H.p), x, H.p)
RECURSIVE MAbsorbAll(_, _, _)
MAbsorbAll(H, h, xs) == IF xs = <<>> THEN h ELSE MAbsorbAll(H, MAbsorb(H, h, xs[1]), Tail(xs))
Mimc(H, xs) == MAbsorbAll(H, <<>>, [i \in 1..Len(xs) |-> Mod(xs[i], H.p)])

(* The streaming hasher: what was written and not yet digested, and the      *)
(* chaining value.  A digest consumes what is pending.                       *)
Fresh == [h |-> <<>>, data |-> <<>>]
DoWrite(q, xs) == [q EXCEPT !.data = @ \o xs]
DoSum(H, q) == [h |-> MAbsorbAll(H, q.h, [i \in 1..Len(q.data) |-> Mod(q.data[i], H.p)]), data |-> <<>>]
=============================================================================

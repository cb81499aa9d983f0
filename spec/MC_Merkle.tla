------------------------------ MODULE MC_Merkle ------------------------------
(* The path verifier against the tree, with a symbolic (injective) hash: the  *)
(* prover may put any term for the leaf value and every sibling.  Accepted at *)
(* the tree's own depth means: the value is the leaf at the index the sides   *)
(* spell, and the siblings are the tree's.                                    *)
EXTENDS Integers, Sequences
CONSTANTS Depth, Atoms, Ignore     \* Ignore: "none", "side" (verifier forgets sides), "leafhash" (leaf not hashed)
H(c, a, b) == <<a, b>>
INSTANCE Merkle WITH Hash <- H
Leaf(x) == IF Ignore = "leafhash" THEN x ELSE <<x>>
Vals == {<<a>> : a \in Atoms}
LeafT == {Leaf(v) : v \in Vals}
RECURSIVE TermsUpTo(_)
TermsUpTo(h) == IF h = 0 THEN LeafT ELSE TermsUpTo(h - 1) \cup {H(0, x, y) : x \in TermsUpTo(h - 1), y \in TermsUpTo(h - 1)}
N == 2 ^ Depth
Values == Vals \cup {H(0, Leaf(x), Leaf(y)) : x \in Vals, y \in Vals}
VARIABLES ls, v0, v, sides, sibs, ph
vars == <<ls, v0, v, sides, sibs, ph>>
Init == ls = <<>> /\ v0 = <<>> /\ v = <<>> /\ sides = <<>> /\ sibs = <<>> /\ ph = "tree"
Grow == ph = "tree" /\ Len(ls) < N /\ \E x \in Vals : ls' = Append(ls, x) /\ UNCHANGED <<v0, v, sides, sibs, ph>>
Claim == ph = "tree" /\ Len(ls) = N /\ \E x \in Values : v0' = x /\ v' = Leaf(x) /\ ph' = "path" /\ UNCHANGED <<ls, sides, sibs>>
Step == /\ ph = "path" /\ Len(sides) < Depth
        /\ \E s \in {0, 1}, x \in TermsUpTo(Depth - 1) :
             /\ sides' = Append(sides, s) /\ sibs' = Append(sibs, x)
             /\ v' = IF s = 0 \/ Ignore = "side" THEN H(0, v, x) ELSE H(0, x, v)
        /\ UNCHANGED <<ls, v0, ph>>
Next == Grow \/ Claim \/ Step
Hashed == [i \in 1..N |-> Leaf(ls[i])]
RECURSIVE Num(_)
Num(q) == IF q = <<>> THEN 0 ELSE q[1] + 2 * Num(Tail(q))
Done == ph = "path" /\ Len(sides) = Depth
Accepts == v = RootOf(0, Hashed)
Sound == Done /\ Accepts => v0 = ls[Num(sides) + 1] /\ sibs = SibsOf(0, Hashed, Num(sides))
Complete == Done /\ v0 = ls[Num(sides) + 1] /\ sibs = SibsOf(0, Hashed, Num(sides)) => Accepts
Agrees == Done /\ Ignore # "side" => v = PathRoot(0, Leaf(v0), sides, sibs)
Sides == Done => sides = SidesOf(N, Num(sides))
=============================================================================

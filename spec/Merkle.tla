------------------------------- MODULE Merkle -------------------------------
(* Binary Merkle trees over an abstract two-to-one hash.                     *)
EXTENDS Integers, Sequences
CONSTANT Hash(_, _, _)      \* Hash(c, left, right); c is the hasher's context
RECURSIVE RootOf(_, _), PathRoot(_, _, _, _), IsPow2(_)
IsPow2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ IsPow2(n \div 2))
RootOf(c, ls) == IF Len(ls) = 1 THEN ls[1]
  ELSE RootOf(c, [i \in 1..(Len(ls) \div 2) |-> Hash(c, ls[2 * i - 1], ls[2 * i])])
\* the root from a leaf up: side 0 means the node is the left child
PathRoot(c, v, sides, sibs) == IF sibs = <<>> THEN v
  ELSE PathRoot(c, IF sides[1] = 0 THEN Hash(c, v, sibs[1]) ELSE Hash(c, sibs[1], v), Tail(sides), Tail(sibs))
\* the siblings and sides of leaf number i (from 0)
RECURSIVE SibsOf(_, _, _), SidesOf(_, _)
SibsOf(c, ls, i) == IF Len(ls) = 1 THEN <<>>
  ELSE <<ls[(IF i % 2 = 0 THEN i + 1 ELSE i - 1) + 1]>> \o
       SibsOf(c, [j \in 1..(Len(ls) \div 2) |-> Hash(c, ls[2 * j - 1], ls[2 * j])], i \div 2)
SidesOf(n, i) == IF n = 1 THEN <<>> ELSE <<i % 2>> \o SidesOf(n \div 2, i \div 2)
=============================================================================

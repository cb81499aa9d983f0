------------------------------- MODULE MC_Mpt -------------------------------
(***************************************************************************)
(* The inclusion verifier as a state machine over tries with a three-letter *)
(* alphabet, against the map the trie holds.  Hashes are symbolic: the      *)
(* hash of a node is the node itself, so a broken link is any reference     *)
(* that is not the next node.  A prover chooses key, value, depth, every    *)
(* node, its declared kind and every start position; the verifier performs  *)
(* the checks of the circuit layer by layer.                                *)
(*                                                                         *)
(* Sound: an accepted run means the trie holds the value under the key (or  *)
(* nothing, if the claimed value is zero).  With a check              *)
(* dropped (constant Dropped) TLC looks for a false statement that is       *)
(* accepted; the checks implied by the others on well-formed tries are kept *)
(* as such in checks.py.  Each check is attacked on the real circuit.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Nib,       \* alphabet
          KL,        \* key length
          MaxKeys,   \* entries of a trie
          MaxDepth,
          Dropped    \* the check left out ("none")


Key == [1..KL -> Nib]
Vals == {1, 2}       \* 0 is the claim of absence
Empty == [k |-> "e"]

Leaf(f, v) == [k |-> "l", f |-> f, v |-> v]
Ext(f, r) == [k |-> "x", f |-> f, r |-> r]
Branch(a, b, c) == [k |-> "b", c |-> <<a, b, c>>]
Drop(q, n) == SubSeq(q, n + 1, Len(q))

\* the trie of a partial map, from position p on
RECURSIVE Common(_)
Common(S) == IF \E a \in S : a = <<>> THEN 0
             ELSE IF \A a \in S, b \in S : a[1] = b[1] THEN 1 + Common({Tail(a) : a \in S}) ELSE 0
RECURSIVE Trie(_)
\* M: set of <<suffix, value>>
Trie(M) ==
  IF M = {} THEN Empty
  ELSE IF Cardinality(M) = 1 THEN LET m == CHOOSE m \in M : TRUE IN Leaf(m[1], m[2])
  ELSE LET c == Common({m[1] : m \in M}) IN
       IF c > 0 THEN Ext(SubSeq((CHOOSE m \in M : TRUE)[1], 1, c), Trie({<<Drop(m[1], c), m[2]>> : m \in M}))
       ELSE Branch(Trie({<<Tail(m[1]), m[2]>> : m \in {x \in M : x[1][1] = 0}}),
                   Trie({<<Tail(m[1]), m[2]>> : m \in {x \in M : x[1][1] = 1}}),
                   Trie({<<Tail(m[1]), m[2]>> : m \in {x \in M : x[1][1] = 2}}))
RECURSIVE Sub(_)
Sub(n) == CASE n.k = "e" -> {}
            [] n.k = "l" -> {n}
            [] n.k = "x" -> {n} \cup Sub(n.r)
            [] n.k = "b" -> {n} \cup Sub(n.c[1]) \cup Sub(n.c[2]) \cup Sub(n.c[3])
Maps == UNION {[S -> Vals] : S \in {T \in SUBSET Key : Cardinality(T) \in 1..MaxKeys}}

Seqs(n) == UNION {[1..i -> Nib] : i \in 0..n}
\* nodes a prover can make up
Forged == {Leaf(f, 2) : f \in Seqs(KL)} \cup {Branch(Empty, Leaf(f, 2), Empty) : f \in {<<>>, <<0>>}} \cup {Ext(<<1>>, Leaf(<<0>>, 2))}

VARIABLES m, key, val, depth, layer, start, want, ok
vars == <<m, key, val, depth, layer, start, want, ok>>

Root == Trie({<<k, m[k]>> : k \in DOMAIN m})
Universe == Sub(Root) \cup Forged

Init == /\ m \in Maps
        /\ key \in Key
        /\ val \in Vals \cup {0}
        /\ depth \in 1..MaxDepth
        /\ layer = 1
        /\ start \in 0..KL
        /\ (Dropped = "start0" \/ start = 0)
        /\ want = Root
        /\ ok = "run"

\* is the check made?
C(name, cond) == Dropped = name \/ cond
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* an inner layer: node n, next start t
Inner == /\ ok = "run" /\ layer < depth /\ start < KL
         /\ \E n \in Universe, t \in 1..KL :
              /\ C("link", n = want)
              /\ C("monotone", t > start)
              /\ \/ /\ n.k = "b"
                    /\ C("single", t = start + 1)
                    /\ want' = n.c[key[start + 1] + 1]
                    /\ C("emptyref", want' # Empty)
                 \/ /\ n.k = "x"
                    /\ C("extpath", IsPrefix(n.f, Drop(key, start)))
                    /\ C("extlen", t = start + Len(n.f))
                    /\ want' = n.r
                 \/ /\ Dropped = "flag" /\ n.k = "l"   \* a leaf taken for an extension
                    /\ IsPrefix(n.f, Drop(key, start)) /\ t = start + Len(n.f)
                    /\ want' = Leaf(<<>>, n.v)
              /\ start' = t
              /\ layer' = layer + 1
              /\ UNCHANGED <<m, key, val, depth, ok>>

\* the last layer
Last == /\ ok = "run" /\ layer = depth /\ start < KL
        /\ \E n \in Universe :
             /\ C("lastlink", n = want)
             /\ LET rest == Drop(key, start) IN
                \/ /\ n.k = "l" /\ val # 0
                   /\ C("leafpath", IsPrefix(n.f, rest))
                   /\ C("leaflen", Len(n.f) = Len(rest))
                   /\ C("value", n.v = val)
                \/ /\ n.k = "l" /\ C("zeroleaf", val = 0)
                   /\ C("leafaway", n.f # rest)
                \/ /\ n.k = "b" /\ C("zerobranch", val = 0)
                   /\ C("childempty", n.c[rest[1] + 1] = Empty)
                \/ /\ n.k = "x" /\ C("zeroext", val = 0)
                   /\ C("extaway", ~IsPrefix(n.f, rest))
        /\ ok' = "acc"
        /\ UNCHANGED <<m, key, val, depth, layer, start, want>>
Next == Inner \/ Last
Spec == Init /\ [][Next]_vars

Holds == IF key \in DOMAIN m THEN m[key] ELSE 0
Sound == ok = "acc" => val = Holds

\* completeness: the honest prover's path exists
RECURSIVE Path(_, _)
Path(n, rest) == CASE n.k = "e" -> 0
                   [] n.k = "l" -> 1
                   [] n.k = "b" -> 1 + Path(n.c[rest[1] + 1], Tail(rest))
                   [] n.k = "x" -> IF IsPrefix(n.f, rest) THEN 1 + Path(n.r, Drop(rest, Len(n.f))) ELSE 1
Honest == val = Holds /\ depth = Path(Root, key)
\* with all checks made, the run of a true statement with the right depth never gets stuck
\* (a leaf whose path is empty is out of the circuit's range)
Complete == ok = "run" /\ Honest /\ start < KL => ENABLED Next
=============================================================================

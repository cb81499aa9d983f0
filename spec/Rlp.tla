-------------------------------- MODULE Rlp ---------------------------------
(* Recursive Length Prefix encoding (Ethereum yellow paper, appendix B).    *)
(* An item is [s |-> bytes] or [l |-> sequence of items].                   *)
EXTENDS Integers, Sequences

RECURSIVE BE(_)
\* minimal big-endian bytes of a natural; zero is empty
BE(n) == IF n = 0 THEN <<>> ELSE BE(n \div 256) \o <<n % 256>>
RlpLen(base, n) == IF n < 56 THEN <<base + n>> ELSE LET b == BE(n) IN <<base + 55 + Len(b)>> \o b
RlpStr(b) == IF Len(b) = 1 /\ b[1] < 128 THEN b ELSE RlpLen(128, Len(b)) \o b
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
\* list of already encoded items
RlpList(encs) == LET c == Concat(encs) IN RlpLen(192, Len(c)) \o c
RECURSIVE RlpItem(_)
RlpItem(it) == IF "s" \in DOMAIN it THEN RlpStr(it.s) ELSE RlpList([i \in 1..Len(it.l) |-> RlpItem(it.l[i])])
RlpNat(n) == RlpStr(BE(n))
NibblesOf(b) == [i \in 1..(2 * Len(b)) |-> IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16]
=============================================================================

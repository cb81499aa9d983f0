------------------------------- MODULE Header -------------------------------
(* Block headers: their RLP, their hash, and the fixed-size bit string that *)
(* the header circuits take.                                                *)
EXTENDS Integers, Sequences, Rlp, Keccak
\* f: the fifteen mandatory fields; o: the optional ones, in order, [p |-> present, b |-> bytes]
LastPresent(o) == LET S == {i \in 1..Len(o) : o[i].p = 1} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
HeaderRlp(h) == RlpList([i \in 1..(15 + LastPresent(h.o)) |-> RlpStr(IF i <= 15 THEN h.f[i] ELSE h.o[i - 15].b)])
HeaderHash(h) == Keccak256(HeaderRlp(h))
ParentOf(h) == h.f[1]
NumberOf(h) == h.f[9]
\* the limits of the circuit, in bytes
MaxBlocks == 5
DynamicLimit == << <<8, 7>>, <<9, 8>>, <<10, 4>>, <<11, 4>>, <<12, 4>> >>
HeaderFits(h) == /\ \A i \in 1..Len(DynamicLimit) : Len(h.f[DynamicLimit[i][1]]) <= DynamicLimit[i][2]
                 /\ Len(h.o[1].b) <= 7
                 /\ Len(HeaderRlp(h)) \div 136 + 1 <= MaxBlocks
RoundIndex(h) == Len(HeaderRlp(h)) \div 136
Padded(h) == LET q == Pad(HeaderRlp(h)) IN q \o [i \in 1..(136 * MaxBlocks - Len(q)) |-> 0]
\* absorbing the blocks up to the round index gives the block hash
HashOfPadded(bs, idx) == Keccak256Padded(bs, idx + 1)
=============================================================================

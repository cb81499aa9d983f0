------------------------------- MODULE Query --------------------------------
(* What a query commits to: a record of fields, each in its declared number *)
(* of bits, least significant bit first, packed into groups of G bits.      *)
EXTENDS Integers, Sequences
CONSTANTS Width(_),        \* bits a value needs
          Bits(_, _)       \* the n low bits of a value, lowest first
Fits(lay) == \A i \in 1..Len(lay) : Width(lay[i][1]) <= lay[i][2]
RECURSIVE Pack(_)
Pack(lay) == IF lay = <<>> THEN <<>> ELSE Bits(lay[1][1], lay[1][2]) \o Pack(Tail(lay))
RECURSIVE Groups(_, _)
Groups(bs, G) == IF bs = <<>> THEN <<>>
                 ELSE IF Len(bs) <= G THEN <<bs>>
                 ELSE <<SubSeq(bs, 1, G)>> \o Groups(SubSeq(bs, G + 1, Len(bs)), G)
\* the declared records: pairs of a value and its width
LogLayout(x) == <<  <<x.addr, 160>>, <<x.index, 16>>, <<x.topic0, 48>>, <<x.fromTopic, 1>>, <<x.valueIndex, 7>>, <<x.value, 256>> >>
RECURSIVE LogsLayout(_)
LogsLayout(xs) == IF xs = <<>> THEN <<>> ELSE LogLayout(xs[1]) \o LogsLayout(Tail(xs))
ReceiptLayout(x) == << <<x.blk, 32>>, <<x.fee, 128>>, <<x.key, 32>> >> \o LogsLayout(x.logs) \o << <<x.time, 64>> >>
StorageLayout(x) == << <<x.blk, 32>>, <<x.fee, 128>>, <<x.addr, 160>>, <<x.slot, 256>>, <<x.value, 256>>, <<x.time, 64>> >>
TxLayout(x) == << <<x.blk, 32>>, <<x.fee, 128>>, <<x.key, 32>>, <<x.leaf, 256>>, <<x.time, 64>> >>
=============================================================================

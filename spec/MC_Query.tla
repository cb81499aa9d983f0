------------------------------ MODULE MC_Query ------------------------------
(* The packing is injective: over small widths, two different records never *)
(* have the same list of group values, also when they differ in how many    *)
(* logs they have.  (A group's value forgets its length, so this needs the  *)
(* log record to be longer than a group.)                                   *)
EXTENDS Integers, Sequences
CONSTANTS G, WBlk, WLog, MaxLogs, WTime
RECURSIVE W(_)
W(x) == IF x = 0 THEN 0 ELSE 1 + W(x \div 2)
B(x, n) == [i \in 1..n |-> (x \div (2 ^ (i - 1))) % 2]
INSTANCE Query WITH Width <- W, Bits <- B
RECURSIVE Val(_)
Val(bs) == IF bs = <<>> THEN 0 ELSE bs[1] + 2 * Val(Tail(bs))
Lay(r) == << <<r.blk, WBlk>> >> \o [i \in 1..Len(r.logs) |-> <<r.logs[i], WLog>>] \o << <<r.time, WTime>> >>
Packed(r) == LET g == Groups(Pack(Lay(r)), G) IN [i \in 1..Len(g) |-> Val(g[i])]
Recs == { [blk |-> b, logs |-> q, time |-> t] : b \in 0..(2 ^ WBlk - 1), q \in UNION {[1..n -> 0..(2 ^ WLog - 1)] : n \in 0..MaxLogs}, t \in 0..(2 ^ WTime - 1) }
VARIABLES a, b
Init == a \in Recs /\ b = a
Next == b = a /\ b' \in Recs /\ UNCHANGED a
Injective == a # b => Packed(a) # Packed(b)
\* what fits its width is recovered from the packing
RECURSIVE Unpack(_, _)
Unpack(bs, ws) == IF ws = <<>> THEN <<>> ELSE <<Val(SubSeq(bs, 1, ws[1]))>> \o Unpack(SubSeq(bs, ws[1] + 1, Len(bs)), Tail(ws))
Recovers == LET lay == Lay(a) IN Fits(lay) /\ Unpack(Pack(lay), [i \in 1..Len(lay) |-> lay[i][2]]) = [i \in 1..Len(lay) |-> lay[i][1]]
=============================================================================

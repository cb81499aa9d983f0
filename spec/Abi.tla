-------------------------------- MODULE Abi ---------------------------------
(* The contract ABI: 32-byte big-endian words; dynamic values are placed    *)
(* after the head, which holds their offsets.                               *)
EXTENDS Integers, Sequences, Hex
NatBytes(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
WordOfNat(n) == LeftPad(NatBytes(n), 32)
RightPad(b) == LET n == (32 - (Len(b) % 32)) % 32 IN b \o [i \in 1..n |-> 0]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
\* a value is [t |-> type, b |-> bytes (big-endian number, or the string)] or [t |-> list type, l |-> values]
Dynamic(v) == v.t \in {"bytes", "string", "uint256[]"}
Static(v) == IF v.t = "bytes32" THEN v.b ELSE IF v.t = "uint256[2]" THEN Flat([i \in 1..2 |-> LeftPad(v.l[i], 32)]) ELSE LeftPad(v.b, 32)
DynBody(v) == IF v.t = "uint256[]" THEN WordOfNat(Len(v.l)) \o Flat([i \in 1..Len(v.l) |-> LeftPad(v.l[i], 32)])
              ELSE WordOfNat(Len(v.b)) \o RightPad(v.b)
RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumTo(q, n - 1)
AbiEncode(vs) ==
  LET headLen == SumTo([i \in 1..Len(vs) |-> IF Dynamic(vs[i]) THEN 32 ELSE Len(Static(vs[i]))], Len(vs))
      body == [i \in 1..Len(vs) |-> IF Dynamic(vs[i]) THEN DynBody(vs[i]) ELSE <<>>]
      off == [i \in 1..Len(vs) |-> headLen + SumTo([j \in 1..Len(vs) |-> Len(body[j])], i - 1)]
  IN Flat([i \in 1..Len(vs) |-> IF Dynamic(vs[i]) THEN WordOfNat(off[i]) ELSE Static(vs[i])]) \o Flat(body)
=============================================================================

--------------------------------- MODULE Tx ---------------------------------
(* Transactions and receipts and their encodings (EIP-155, EIP-1559,        *)
(* EIP-2930, EIP-4844 fields are not used), and who signed a transaction.   *)
(* Numbers are big naturals; a missing recipient is <<>>.                   *)
EXTENDS Ecdsa, Rlp, Keccak

MinBytes(x) == ToBytes(x, (BitLen(x) + 7) \div 8)
Num(x) == RlpStr(MinBytes(x))
AccessList(al) == RlpList([i \in 1..Len(al) |-> RlpList(<<RlpStr(al[i].a), RlpList([j \in 1..Len(al[i].k) |-> RlpStr(al[i].k[j])])>>)])
\* the chain a protected legacy signature value names
LegacyChain(v) == Div(Sub(v, <<35>>), <<2>>)
Protected(v) == Leq(<<35>>, v)
Body(t) == CASE t.type = 0 -> <<Num(t.nonce), Num(t.fee), Num(t.gas), RlpStr(t.to), Num(t.value), RlpStr(t.data)>>
             [] t.type = 1 -> <<Num(t.chain), Num(t.nonce), Num(t.fee), Num(t.gas), RlpStr(t.to), Num(t.value), RlpStr(t.data), AccessList(t.al)>>
             [] OTHER -> <<Num(t.chain), Num(t.nonce), Num(t.tip), Num(t.fee), Num(t.gas), RlpStr(t.to), Num(t.value), RlpStr(t.data), AccessList(t.al)>>
\* what is hashed and signed, without the type byte
Unsigned(t) == IF t.type = 0 THEN RlpList(Body(t) \o <<Num(LegacyChain(t.v)), Num(<<>>), Num(<<>>)>>) ELSE RlpList(Body(t))
TypeByte(t) == IF t.type = 0 THEN <<>> ELSE <<t.type>>
SignedOver(t) == Keccak256(TypeByte(t) \o Unsigned(t))
\* what a block holds
Encoded(t) == TypeByte(t) \o RlpList(Body(t) \o <<Num(t.v), Num(t.r), Num(t.s)>>)
Parity(t) == IF t.type = 0 THEN Mod(Sub(t.v, <<35>>), <<2>>) ELSE t.v
AddressOf(P) == SubSeq(Keccak256(PointBytes(P)), 13, 32)
\* supported: replay-protected legacy and dynamic-fee transactions
Supported(t) == t.type = 2 \/ (t.type = 0 /\ Protected(t.v))
Signer(c, t) ==
  LET v == Parity(t) IN
  IF ~Supported(t) \/ Len(v) > 1 \/ (v # <<>> /\ v[1] > 3) THEN Infinity
  ELSE Recover(c, FromBytes(SignedOver(t)), IF v = <<>> THEN 0 ELSE v[1], t.r, t.s)

ReceiptOf(r) == TypeByte(r) \o RlpList(<<RlpStr(r.status), Num(r.gas), RlpStr(r.bloom),
  RlpList([i \in 1..Len(r.logs) |-> RlpList(<<RlpStr(r.logs[i].a), RlpList([j \in 1..Len(r.logs[i].t) |-> RlpStr(r.logs[i].t[j])]), RlpStr(r.logs[i].d)>>)])>>)
=============================================================================

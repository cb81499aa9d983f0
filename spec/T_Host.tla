------------------------------- MODULE T_Host -------------------------------
(* Sessions of the host-side code: query commitments (C21), header encoding *)
(* (C22), proof encodings (C30), chunk bookkeeping (C31), text helpers      *)
(* (C32), verifying-key digests (C35) and hash helpers (C36).               *)
EXTENDS TraceBase, Mimc, Poseidon, Header, Abi
QB(x, n) == ToBits(x, n)
Q == INSTANCE Query WITH Width <- BitLen, Bits <- QB
Hs == [c \in {"bn254", "bls377", "bw761"} |-> TLCEval(Hasher(c))]
MHash(H, a, b) == Mimc(H, <<a, b>>)
MT == INSTANCE Merkle WITH Hash <- MHash

MyStart(t) == [pre |-> <<>>]
Vals(gs) == [i \in 1..Len(gs) |-> FromBits(gs[i])]

(* ---- C21 ---- *)
Layout(e) == CASE e.op = "receipt" -> Q!ReceiptLayout(e.q) [] e.op = "storage" -> Q!StorageLayout(e.q) [] OTHER -> Q!TxLayout(e.q)
Commitment(e) == LET lay == Layout(e) IN
  IF e.bad = 1 \/ ~Q!Fits(lay) THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET xs == TLCEval(Vals(TLCEval(Q!Groups(TLCEval(Q!Pack(lay)), 253)))) IN
       IF PoseidonDefined(xs) THEN [ok |-> TRUE, v |-> PoseidonHash(xs)] ELSE [ok |-> FALSE, v |-> <<>>]
QueryE(e) == LET c == TLCEval(Commitment(e)) IN IF ~c.ok THEN e.acc = 0 ELSE e.acc = 1 /\ e.out = c.v

(* ---- C22 ---- *)
EncE(e) == IF \E i \in 1..Len(e.hs) : ~HeaderFits(e.hs[i]) THEN e.acc = 0
           ELSE /\ e.acc = 1 /\ Len(e.out) = Len(e.hs) /\ Len(e.idx) = Len(e.hs)
                /\ \A i \in 1..Len(e.hs) :
                     /\ e.idx[i] = RoundIndex(e.hs[i]) /\ e.out[i] = Padded(e.hs[i])
                     /\ HashOfPadded(e.out[i], e.idx[i]) = e.hash[i]
GenE(e) == /\ Len(e.hs) = e.count
           /\ \A i \in 1..Len(e.hs) :
                /\ ParentOf(e.hs[i]) = (IF i = 1 THEN e.prev ELSE HeaderHash(e.hs[i - 1]))
                /\ FromBytes(NumberOf(e.hs[i])) = NatOf(e.start + i - 1)
                /\ HeaderFits(e.hs[i])
HashPair(b) == Mimc(Hs["bls377"], << FromBytes(SubSeq(b, 1, 16)), FromBytes(SubSeq(b, 17, 32)) >>)
RootE(e) == LET H == Hs["bls377"] xs == [i \in 1..Len(e.leaves) |-> FromBytes(e.leaves[i])] IN
  IF ~MT!IsPow2(Len(xs)) THEN e.acc = 0 ELSE e.acc = 1 /\ FromBytes(e.out) = MT!RootOf(H, xs)

(* ---- C30 ---- *)
RECURSIVE Concats(_)
Concats(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concats(Tail(q))
AbiE(e) == IF \E i \in 1..Len(e.coords) : Len(e.coords[i]) > 32 THEN e.acc = 0
  ELSE IF \E i \in 1..3 : Len(e.hashes[i]) > 32 THEN e.acc = 0
  ELSE /\ e.acc = 1
       /\ e.out = Concats([i \in 1..8 |-> LeftPad(e.coords[i], 32)]) \o [i \in 1..64 |-> 0]
                  \o Concats([i \in 1..3 |-> LET h == LeftPad(e.hashes[i], 32) IN LeftPad(SubSeq(h, 1, 16), 32) \o LeftPad(SubSeq(h, 17, 32), 32)])
                  \o ToBytes(e.start, 32) \o ToBytes(e.end, 32)
\* the twelve coordinates of a proof in contract order (imaginary part first)
ContractOrder(c) == <<c.ax, c.ay, c.bx1, c.bx0, c.by1, c.by0, c.cx, c.cy, c.mx, c.my, c.kx, c.ky>>
BytesMin(x) == ToBytes(x, (BitLen(x) + 7) \div 8)
BatchString(e) == LET q == [i \in 1..12 |-> HexEnc0x(BytesMin(ContractOrder(e.c)[i]))] \o e.pubs IN JoinSeq(q, <<44>>) \o <<44>>
\* method selector: the first four bytes of the hash of the signature
Selector(e) == SubSeq(Keccak256(e.sig), 1, 4)
CallE(e) == IF e.known = 0 THEN e.acc = 0 ELSE e.acc = 1 /\ e.out = Selector(e) \o AbiEncode(e.vs)
RetE(e) == IF e.known = 0 THEN e.acc = 0 ELSE e.acc = 1 /\ e.out = AbiEncode(e.vs)
\* decoding: the encoding of values yields the values; less than the head is refused
DecE(e) == IF e.known = 0 \/ e.ptrs # Len(e.vs) THEN e.acc = 0
           ELSE IF e.data = AbiEncode(e.vs) THEN e.acc = 1 /\ e.out = e.vs
           ELSE IF Len(e.data) < Len(AbiEncode(e.vs)) /\ e.fixed = 1 THEN e.acc = 0
           ELSE TRUE

(* ---- C31 ---- *)
ChunkSize == 128
\* the chains with a start block other than zero
StartOf(chain) == CASE chain = 42161 -> 185536768 [] chain = 10 -> 119300224 [] chain = 97 -> 41759160 [] chain = 56 -> 40077400 [] OTHER -> 0
InfoE(e) == e.block = StartOf(e.chain) /\ e.first = StartOf(e.chain) \div ChunkSize /\ e.same = 1
FoundE(e) == e.out = IF \E i \in 1..Len(e.list) : e.list[i] = e.x THEN 1 ELSE 0
ConstE(e) == e.depth = 7 /\ e.size = ChunkSize /\ e.smt = 18 /\ e.smtsize = 262144

(* ---- C32 ---- *)
HexOut(e) ==
  CASE e.fn = "hex2bytes" -> HexDec(e.s)
    [] e.fn = "bytes2hex" -> HexEnc(e.s)
    [] e.fn = "bytes2hex0x" -> HexEnc0x(e.s)
    [] e.fn = "hex2addr" -> RightMost(HexDec(e.s), 20)
    [] e.fn = "addr2hex" -> HexEnc(e.s)
    [] e.fn = "addr2hex0x" -> HexEnc0x(e.s)
    [] e.fn = "bytes2addr" -> RightMost(e.s, 20)
    [] e.fn = "bytes2addrhex" -> HexEnc(RightMost(e.s, 20))
    [] e.fn = "bytes2addrhex0x" -> HexEnc0x(RightMost(e.s, 20))
    [] e.fn = "formataddr" -> HexEnc(RightMost(HexDec(e.s), 20))
    [] e.fn = "hex2hash" -> RightMost(HexDec(e.s), 32)
    [] e.fn = "bytes2hash" -> RightMost(e.s, 32)
    [] e.fn = "hex2big" -> FromBytes(HexDec(e.s))
    [] e.fn = "pad20" -> LeftPad(e.s, 20)
    [] e.fn = "pad32" -> LeftPad(e.s, 32)
    [] e.fn = "slot" -> LeftPad(HexDec(e.s), 32)
HexRefused(e) == (e.fn = "pad20" /\ Len(e.s) > 20) \/ (e.fn = "pad32" /\ Len(e.s) > 32) \/ (e.fn = "slot" /\ Len(HexDec(e.s)) > 32)
HexE(e) == IF HexRefused(e) THEN e.acc = 0 ELSE e.acc = 1 /\ e.out = HexOut(e) /\ e.kept = 1
ListOut(e) ==
  CASE e.fn = "hexes2hashes" -> [i \in 1..Len(e.q) |-> RightMost(HexDec(e.q[i]), 32)]
    [] e.fn = "bytes2hexes" -> [i \in 1..Len(e.q) |-> HexEnc0x(e.q[i])]
    [] e.fn = "strings2bytes" -> [i \in 1..Len(e.q) |-> HexDec(e.q[i])]
    [] e.fn = "join" -> JoinSeq([i \in 1..Len(e.q) |-> HexEnc0x(e.q[i])], <<44>>)
    [] e.fn = "reverse" -> RevSeq(e.q)
    [] e.fn = "ids" -> e.q
Selected(e, k) == LET RECURSIVE F(_)
                      F(q) == IF q = <<>> THEN <<>> ELSE IF q[1] % e.m = k THEN <<q[1]>> \o F(Tail(q)) ELSE F(Tail(q))
                  IN F(e.q)
\* one bucket per key that selects something, contents in the order of the list
PartE(e) == /\ \A i \in 1..Len(e.keys) : e.out[i] = Selected(e, e.keys[i])
            /\ e.extra = 0
\* decimal text, digits most significant first
RECURSIVE Dec(_)
Dec(ds) == IF ds = <<>> THEN <<>> ELSE Add(Mul(Dec(SubSeq(ds, 1, Len(ds) - 1)), <<10>>), NatOf(ds[Len(ds)]))
DecOf(str) == Dec([i \in 1..Len(str) |-> str[i] - 48])
NumE(e) == e.out = DecOf(e.s) /\ e.neg = e.oneg
Milli(e) == Add(Mul(e.sec, NatOf(1000)), Div(e.nsec, NatOf(1000000)))
TimeE(e) == CASE e.fn = "milli" -> e.out = Milli(e)
              [] e.fn = "tomilli" -> e.osec = Div(e.ms, NatOf(1000)) /\ e.onsec = Mul(Mod(e.ms, NatOf(1000)), NatOf(1000000))
              [] e.fn = "tosec" -> e.osec = e.sec /\ e.onsec = <<>>

(* ---- C35 ---- *)
\* the key's components in order; the digest is a 48-byte string
VkE(e) == FromBytes(e.out) = Mimc(Hs["bw761"], e.comps) /\ Len(e.out) = 48
Vk254E(e) == FromBytes(e.out) = Mimc(Hs["bn254"], << FromBytes(SubSeq(e.d, 1, 24)), FromBytes(SubSeq(e.d, 25, 48)) >>) /\ Len(e.out) = 32

(* ---- C36 ---- *)
RECURSIVE ByteBits(_)
ByteBits(b) == [i \in 1..(8 * Len(b)) |-> (b[((i - 1) \div 8) + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2]
\* groups of 253 bits, most significant first
Be(bs) == FromBits(RevSeq(bs))
Blocks253(b) == LET g == Q!Groups(ByteBits(b), 253) IN [i \in 1..Len(g) |-> Be(g[i])]
H377E(e) == FromBytes(e.out) = Mimc(Hs["bls377"], Blocks253(e.data)) /\ Len(e.out) = 32
Pad0E(e) == Len(e.data) <= e.n => e.acc = 1 /\ e.out = LeftPad(e.data, e.n)

MyPost(t, s0, e) ==
  CASE e.op \in {"receipt", "storage", "tx"} -> Ok(QueryE(e), s0)
    [] e.op = "enc" -> Ok(EncE(e), s0)
    [] e.op = "gen" -> Ok(GenE(e), s0)
    [] e.op = "pair" -> Ok(FromBytes(e.out) = HashPair(e.in) /\ Len(e.out) = 32, s0)
    [] e.op = "split" -> Ok(e.out = <<FromBytes(SubSeq(e.in, 1, 16)), FromBytes(SubSeq(e.in, 17, 32))>>, s0)
    [] e.op = "root" -> Ok(RootE(e), s0)
    [] e.op = "abi" -> Ok(AbiE(e), s0)
    [] e.op = "order" -> Ok(e.out = ContractOrder(e.c), s0)
    [] e.op = "same" -> Ok(e.out = e.in, s0)
    [] e.op = "batch" -> Ok(e.out = BatchString(e), s0)
    [] e.op = "call" -> Ok(CallE(e), s0)
    [] e.op = "sel" -> Ok(e.out = Selector(e), s0)
    [] e.op = "ret" -> Ok(RetE(e), s0)
    [] e.op = "dec" -> Ok(DecE(e), s0)
    [] e.op = "info" -> Ok(InfoE(e), s0)
    [] e.op = "found" -> Ok(FoundE(e), s0)
    [] e.op = "const" -> Ok(ConstE(e), s0)
    [] e.op = "hex" -> Ok(HexE(e), s0)
    [] e.op = "valid" -> Ok(e.out = (IF ValidHash(e.s) THEN 1 ELSE 0), s0)
    [] e.op = "list" -> Ok(e.out = ListOut(e), s0)
    [] e.op = "part" -> Ok(PartE(e), s0)
    [] e.op = "num" -> Ok(NumE(e), s0)
    [] e.op = "time" -> Ok(TimeE(e), s0)
    [] e.op = "vk" -> Ok(VkE(e), s0)
    [] e.op = "vk254" -> Ok(Vk254E(e), s0)
    [] e.op = "differs" -> Ok(e.out # e.base, s0)
    \* the Poseidon hasher as a state machine
    [] e.op = "pwrite" -> {[s0 EXCEPT !.pre = Append(@, e.x)]}
    [] e.op = "preset" -> {[s0 EXCEPT !.pre = <<>>]}
    [] e.op = "psum" -> Ok(IF PoseidonDefined(s0.pre) THEN e.acc = 1 /\ e.out = PoseidonHash(s0.pre) ELSE e.acc = 0, s0)
    [] e.op = "h377" -> Ok(H377E(e), s0)
    [] e.op = "pad0" -> Ok(Pad0E(e), s0)
    [] OTHER -> {}
MyExpect(t, s0, e) ==
  CASE e.op \in {"receipt", "storage", "tx"} -> [want |-> Commitment(e).v, got |-> e.out]
    [] e.op = "psum" -> [want |-> IF PoseidonDefined(s0.pre) THEN PoseidonHash(s0.pre) ELSE <<>>, got |-> e.out]
    [] e.op = "hex" /\ ~HexRefused(e) -> [want |-> HexOut(e), got |-> e.out]
    [] OTHER -> [op |-> e.op]
=============================================================================

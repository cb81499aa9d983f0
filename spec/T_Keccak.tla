------------------------------ MODULE T_Keccak ------------------------------
(* Sessions of the Keccak gadgets (C01, C02) and of the host helpers (C03). *)
EXTENDS TraceBase, Keccak, BigNat

Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Fits(d, n) == BitLen(d) <= n
\* a small natural from digits; -1 if it does not fit
SmallOf(d) == IF d = <<>> THEN 0 ELSE IF Len(d) = 1 THEN d[1] ELSE IF Len(d) = 2 /\ d[2] < 30000 THEN d[1] + B * d[2] ELSE -1

LaneOfDigits(d) == LET b == ToBytes(d, 8) IN LaneOf(Rev(b), 0)
DigitsOfLane(a) == FromBytes(Rev(LaneBytes(a)))
LaneOfWord(bs, o) == FromBytes(Rev(SubSeq(bs, o + 1, o + 8)))
WordsOf(bs) == [i \in 1..(Len(bs) \div 8) |-> LaneOfWord(bs, 8 * (i - 1))]
BitsOf(bs) == [i \in 1..(8 * Len(bs)) |-> (bs[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2]
BytesOfBits(b) == [i \in 1..(Len(b) \div 8) |-> b[8*i-7] + 2*b[8*i-6] + 4*b[8*i-5] + 8*b[8*i-4] + 16*b[8*i-3] + 32*b[8*i-2] + 64*b[8*i-1] + 128*b[8*i]]
Zeros(n) == [i \in 1..n |-> 0]

RECURSIVE AbsLanes(_, _, _, _)
AbsLanes(A, ls, k, n) == IF k > n THEN A ELSE AbsLanes(TLCEval(AbsorbLanes(A, [i \in 1..17 |-> LaneOfDigits(ls[17 * (k - 1) + i])])), ls, k + 1, n)

(* ---- C01: packed lanes.  The machine absorbs blocks 0..idx and outputs the state. ---- *)
SpongeOk(e) == /\ \A i \in 1..Len(e.lanes) : Fits(e.lanes[i], 64)
               /\ SmallOf(e.idx) \in 0..(e.max - 1)
SpongeOut(e) == LET A == AbsLanes(EmptyState, e.lanes, 1, SmallOf(e.idx) + 1) IN [i \in 1..4 |-> DigitsOfLane(A[i])]
MsgOut(m) == LET d == Keccak256(m) IN [i \in 1..4 |-> LaneOfWord(d, 8 * (i - 1))]
PSponge(e) ==
  IF SpongeOk(e) THEN /\ e.acc = 1
                      /\ e.out = SpongeOut(e)
                      /\ (e.msg # <<>> => e.out = MsgOut(e.msg[1]))
  ELSE e.acc = 0
PackOut(e) == LET n == Len(e.nibs) \div 16
                  by == [j \in 1..(8 * n) |-> 16 * e.nibs[2 * j - 1] + e.nibs[2 * j]]
              IN WordsOf(by) \o [i \in 1..(17 * e.width - n) |-> <<>>]
PPack(e) == IF \A i \in 1..Len(e.nibs) : e.nibs[i] \in 0..15 THEN e.acc = 1 /\ e.out = PackOut(e) ELSE e.acc = 0

(* ---- C02: bits ---- *)
PerByte(e) == 8 \div e.w
PadInOk(e) == LET n == SmallOf(e.len) IN
  /\ n \in e.min..e.max /\ (n - e.min) % PerByte(e) = 0
  /\ \A i \in 1..Len(e.in) : e.in[i] \in 0..(2 ^ e.w - 1)
ElemBytes(e, n) == LET k == PerByte(e) IN [j \in 1..(n \div k) |->
   LET g(t) == e.in[k * (j - 1) + t] IN
   CASE k = 1 -> g(1) [] k = 2 -> 16 * g(1) + g(2) [] k = 4 -> 64 * g(1) + 16 * g(2) + 4 * g(3) + g(4)
     [] k = 8 -> 128*g(1) + 64*g(2) + 32*g(3) + 16*g(4) + 8*g(5) + 4*g(6) + 2*g(7) + g(8)]
OutLen(e) == ((e.max * e.w + 8) \div 1088 + 1) * 1088
PadBitsOut(e) == LET b == BitsOf(Pad(ElemBytes(e, SmallOf(e.len)))) IN b \o Zeros(OutLen(e) - Len(b))
PPad(e) == IF PadInOk(e) THEN e.acc = 1 /\ e.out = PadBitsOut(e) ELSE e.acc = 0
PadFixOut(e) == LET b == BitsOf(Pad(e.msg)) IN b \o Zeros(1088 * e.rounds - Len(b))
PPadFix(e) == e.acc = 1 /\ e.out = PadFixOut(e)
BitsOk(e) == LET k == SmallOf(e.idx) IN e.max = 1 \/ (k >= 0 /\ k \in (e.min - 1)..(e.max - 1))
DataOut(e) == LET k == IF e.max = 1 THEN 0 ELSE SmallOf(e.idx) IN BitsOf(Keccak256Padded(e.data, k + 1))
\* with a single possible round the index is not consulted; it may also be refused
PBits(e) == IF BitsOk(e) THEN IF e.max = 1 /\ e.idx # <<>> THEN e.acc = 0 \/ e.out = DataOut(e)
                              ELSE e.acc = 1 /\ e.out = DataOut(e)
            ELSE e.acc = 0
PE2e(e) == e.acc = 1 /\ e.out = BitsOf(Keccak256(e.msg))

(* ---- C03: host helpers.  State of the caller's memory is part of the observation. ---- *)
PPadBytes(e) == e.res = "ok" /\ e.out = Pad(e.m) /\ e.after = e.before
PPadWords(e) == e.res = "ok" /\ e.out = WordsOf(Pad(e.m)) /\ e.after = e.before
Aligned(e, n, f(_)) == IF Len(e.in) % n = 0 THEN e.res = "ok" /\ e.out = f(e.in) ELSE e.res = "panic"
PWord(e) == IF Len(e.in) = 8 THEN e.res = "ok" /\ e.out = <<LaneOfWord(e.in, 0)>> ELSE e.res = "panic"
PRound(e) == e.res = "ok" /\ e.out = Len(Pad(Zeros(e.n))) \div 136 - 1
BlocksOut(e) == WordsOf(Pad(e.m)) \o [i \in 1..(17 * e.rounds - Len(Pad(e.m)) \div 8) |-> <<>>]

Holds(e) ==
  CASE e.op = "sponge" -> PSponge(e)
    [] e.op = "pack" -> PPack(e)
    [] e.op = "pad" -> PPad(e)
    [] e.op = "padfix" -> PPadFix(e)
    [] e.op = "bits" /\ "data" \in DOMAIN e -> PBits(e)
    [] e.op = "e2e" -> PE2e(e)
    [] e.op = "padBytes" -> PPadBytes(e)
    [] e.op = "padWords" -> PPadWords(e)
    [] e.op = "blkBits" -> Aligned(e, 136, BitsOf)
    [] e.op = "bits" -> Aligned(e, 8, BitsOf)
    [] e.op = "words" -> Aligned(e, 8, WordsOf)
    [] e.op = "word" -> PWord(e)
    [] e.op = "roundIndex" -> PRound(e)
    [] e.op = "blocks" -> e.res = "ok" /\ e.out = BlocksOut(e)
    [] OTHER -> FALSE
Exp(e) ==
  CASE e.op = "sponge" -> IF SpongeOk(e) THEN SpongeOut(e) ELSE "unsat"
    [] e.op = "pack" -> PackOut(e)
    [] e.op = "pad" -> IF PadInOk(e) THEN PadBitsOut(e) ELSE "unsat"
    [] e.op = "padfix" -> PadFixOut(e)
    [] OTHER -> "see specification"
MyStart(t) == 0
MyPost(t, q, e) == Ok(Holds(e), q + 1)
MyExpect(t, q, e) == Exp(e)
=============================================================================

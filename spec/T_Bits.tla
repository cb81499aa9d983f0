------------------------------- MODULE T_Bits -------------------------------
(* Sessions of the limb (C18), element (C17), regrouping (C19) and packing  *)
(* (C20) helpers.                                                          *)
EXTENDS TraceBase, Limbs
P == FromHex(<<3,0,6,4,4,14,7,2,14,1,3,1,10,0,2,9,11,8,5,0,4,5,11,6,8,1,8,1,5,8,5,13,2,8,3,3,14,8,4,8,7,9,11,9,7,0,9,1,4,3,14,1,15,5,9,3,15,0,0,0,0,0,0,1>>)
Rep(n, x) == [i \in 1..n |-> x]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Range(q) == {q[i] : i \in 1..Len(q)}

(* ---- limbs ---- *)
OutSizes(op, e) == LET t == Total(e.sizes) IN
  CASE op = "split" -> IF t = e.n THEN <<t>> ELSE SplitSizes(t, e.n, e.cnt)
    [] op = "merge" -> <<t>>
    [] op = "lrotMerge" -> <<t>>
    [] op = "resplit" -> IF t < e.n THEN <<t>> ELSE SplitSizes(t, e.n, 0)
    [] op = "lrot" -> IF t = e.n THEN <<t>> ELSE SplitSizes(t, e.n, 0)
Number(op, e) == LET x == Value(e.in, e.sizes) IN IF op \in {"lrot", "lrotMerge"} THEN RotlBits(x, Total(e.sizes), e.amount) ELSE x
\* requests that cannot be met with whole limbs are refused
Possible(op, e) == LET t == Total(e.sizes) IN
  CASE op = "split" -> e.n <= t /\ (e.cnt = 0 \/ e.cnt * e.n <= t)
    [] op = "resplit" -> t % e.n = 0 \/ e.n < t
    [] op = "lrot" -> e.n <= t
    [] OTHER -> TRUE
LimbE(e) ==
  IF ~Fit(e.in, e.sizes)
  THEN e.acc = 0 \/ Value(e.out, e.osz) = Value(e.in, e.sizes)     \* never truncated
       \/ e.op \in {"lrot", "lrotMerge", "merge"}
  ELSE IF Possible(e.op, e)
  THEN /\ e.acc = 1
       /\ e.osz = OutSizes(e.op, e)
       /\ e.out = Cut(Number(e.op, e), e.osz)
  ELSE e.acc = 0 \/ (e.out = e.in /\ Len(e.in) = 1)
\* whatever a prover puts into the hints, only the honest limbs are accepted
CheatE(e) == e.acc = (IF e.out = Cut(Number(e.of, e), OutSizes(e.of, e)) THEN 1 ELSE 0)

(* ---- emulated elements ---- *)
Chunks(e, k) == Rep(k * e.nb, e.lb)
FromSizes(e) == Rep(e.nb, e.lb)
FromE(e) == LET t == e.nb * e.lb
                le == Rev(e.in) IN
  IF Fit(le, FromSizes(e)) THEN e.acc = 1 /\ e.out = Cut(Value(le, FromSizes(e)), Rep(t \div e.w, e.w))
  ELSE e.acc = 0 \/ Value(e.out, Rep(Len(e.out), e.w)) = Value(le, FromSizes(e))
\* the limbs (little endian) of element k
Elem(e, k) == LET per == (e.nb * e.lb) \div e.w IN SubSeq(e.in, per * (k - 1) + 1, per * k)
LimbsOf(e, ch) == Rev(Cut(Value(ch, Rep(Len(ch), e.w)), Rep(e.nb, e.lb)))
RECURSIVE CatE(_, _, _)
CatE(e, k, n) == IF k > n THEN <<>> ELSE LimbsOf(e, Elem(e, k)) \o CatE(e, k + 1, n)
\* every element has no more bits than the modulus
Fits(e, per) == \A k \in 1..(Len(e.in) \div per) : BitLen(Value(Elem(e, k), Rep(per, e.w))) <= e.mb
ToE(e) == LET per == (e.nb * e.lb) \div e.w
              right == Len(e.in) % per = 0 /\ (e.op = "to" => Len(e.in) = per)
          IN IF ~right THEN e.acc = 0 \/ (e.op = "to" /\ Value(Rev(e.out), Rep(Len(e.out), e.lb)) = Value(e.in, Rep(Len(e.in), e.w)))
             ELSE IF Fit(e.in, Rep(Len(e.in), e.w)) /\ Fits(e, per)
             THEN e.acc = 1 /\ e.out = CatE(e, 1, Len(e.in) \div per)
             ELSE e.acc = 0 \/ (Value(Rev(e.out), Rep(Len(e.out), e.lb)) = Value(e.in, Rep(Len(e.in), e.w)) /\ e.op = "to")
                  \/ (e.op = "tos" /\ \A k \in 1..(Len(e.in) \div per) :
                        Value(Rev(SubSeq(e.out, e.nb * (k - 1) + 1, e.nb * k)), Rep(e.nb, e.lb)) = Value(Elem(e, k), Rep(per, e.w)))

(* ---- regrouping ---- *)
IsBits(q) == \A i \in 1..Len(q) : q[i] \in {<<>>, <<1>>}
Ints(q) == [i \in 1..Len(q) |-> IF q[i] = <<>> THEN 0 ELSE q[i][1]]
RECURSIVE LE(_)
LE(b) == IF b = <<>> THEN 0 ELSE b[1] + 2 * LE(Tail(b))
Group(b, n, k) == SubSeq(b, n * (k - 1) + 1, n * k)
Num(n) == IF n = 0 THEN <<>> ELSE <<n>>
Regroup(op, b) ==
  CASE op = "bytesLE" -> [k \in 1..(Len(b) \div 8) |-> Num(LE(Group(b, 8, k)))]
    [] op = "bytesBE" -> [k \in 1..(Len(b) \div 8) |-> Num(LE(Rev(Group(b, 8, k))))]
    [] op = "bytesRevLE" -> Rev([k \in 1..(Len(b) \div 8) |-> Num(LE(Group(b, 8, k)))])
    [] op = "nibblesLE" -> [k \in 1..(Len(b) \div 4) |-> Num(LE(Group(b, 4, k)))]
    \* bytes with their least significant bit first, as two big-endian halves
    [] op = "u128" -> [h \in 1..2 |-> FromBytes([k \in 1..16 |-> LE(Group(b, 8, 16 * (h - 1) + k))])]
Unit(op) == IF op = "nibblesLE" THEN 4 ELSE 8
RegroupE(e) ==
  /\ e.after = e.in
  /\ IF Len(e.in) % Unit(e.op) # 0 THEN e.acc = 0
     ELSE IF IsBits(e.in) THEN e.acc = 1 /\ e.out = Regroup(e.op, Ints(e.in)) ELSE e.acc = 0
FlipSub(q, g) == [i \in 1..Len(q) |-> LET k == (i - 1) \div g  j == (i - 1) % g IN q[k * g + (g - j)]]
\* groups swap ends; a middle part that is no whole pair of groups stays
FlipGroups(q, g) == LET n == (Len(q) \div g) \div 2 IN
  [i \in 1..Len(q) |-> IF i <= n * g THEN q[Len(q) - ((i - 1) \div g + 1) * g + ((i - 1) % g) + 1]
                       ELSE IF i > Len(q) - n * g THEN LET r == Len(q) - i  k == r \div g  j == (g - 1) - (r % g) IN q[k * g + j + 1]
                       ELSE q[i]]
Clean(e) == e.after = e.back /\ e.alias = 0
FlipE(e) == Clean(e) /\ e.res = "ok" /\ e.out = Rev(e.in)
FlipSubE(e) == Clean(e) /\ IF Len(e.in) % e.g = 0 THEN e.res = "ok" /\ e.out = FlipSub(e.in, e.g) ELSE e.res = "panic"
FlipGroupsE(e) == Clean(e) /\ (Len(e.in) % e.g = 0 => e.res = "ok" /\ e.out = FlipGroups(e.in, e.g))
KFlip(e) == IF e.w % 8 = 0 /\ BitLen(e.x) <= e.w THEN e.acc = 1 /\ e.out = FlipSub(Rev(ToBits(e.x, e.w)), 8) ELSE e.acc = 0

(* ---- 32-byte words ---- *)
Word(e) == FromBytes(e.in)
Parse32(e) == IF Len(e.in) > 32 THEN e.res = "panic"
  ELSE e.res = "ok" /\ (\/ (e.lo = Mod(Word(e), Pow2(e.fr)) /\ e.hi = Div(Word(e), Pow2(e.fr)))
                        \/ (e.fr < 3 /\ Mod(e.hi, P) = Mod(Div(Word(e), Pow2(e.fr)), P)))
Nibs(x, n) == [i \in 1..n |-> LE(SubSeq(ToBits(x, 4 * n), 4 * (n - i) + 1, 4 * (n - i) + 4))]
Trunks(e) == IF 256 % Len(e.in) # 0 THEN e.acc = 0
  ELSE LET w == 256 \div Len(e.in) IN
       IF Fit(e.in, Rep(Len(e.in), w)) THEN e.acc = 1 /\ e.out = Nibs(Value(e.in, Rep(Len(e.in), w)), 64) ELSE e.acc = 0
RECURSIVE Pack(_)
Pack(b) == IF b = <<>> THEN <<>> ELSE LET n == IF Len(b) < 253 THEN Len(b) ELSE 253
           IN <<FromBits(SubSeq(b, 1, n))>> \o Pack(SubSeq(b, n + 1, Len(b)))
PackE(e) == e.host = Pack(e.bits) /\ e.acc = 1 /\ e.out = e.host
Decomp(e) == e.same = 1 /\ IF BitLen(e.x) <= e.n THEN e.res = "ok" /\ e.out = ToBits(e.x, e.n) ELSE e.res = "panic"

Holds(e) ==
  CASE e.op \in {"split", "merge", "resplit", "lrot", "lrotMerge"} -> LimbE(e)
    [] e.op = "cheat" -> CheatE(e)
    [] e.op = "refused" -> ~Possible(e.of.op, e.of) \/ Total(e.of.sizes) > 253
    [] e.op = "from" -> FromE(e)
    [] e.op \in {"to", "tos"} -> ToE(e)
    [] e.op = "roundtrip" -> e.acc = 1 /\ e.out = e.in
    [] e.op \in {"bytesLE", "bytesBE", "bytesRevLE", "nibblesLE", "u128"} -> RegroupE(e)
    [] e.op = "keccakFlip" -> KFlip(e)
    [] e.op = "flip" -> FlipE(e)
    [] e.op = "flipSub" -> FlipSubE(e)
    [] e.op = "flipGroups" -> FlipGroupsE(e)
    [] e.op = "copy" -> e.out = e.in
    [] e.op = "reverse" -> e.out = Rev(e.in)
    [] e.op = "parse32" -> Parse32(e)
    [] e.op = "frBits" -> e.out = ToBits(Word(e), 256)
    [] e.op = "cBits" -> e.acc = 1 /\ e.out = ToBits(Word(e), 256)
    [] e.op = "cNibbles" -> e.acc = 1 /\ e.out = Nibs(Word(e), 64)
    [] e.op = "c128" -> e.acc = 1 /\ e.out = <<Div(Word(e), Pow2(128)), Mod(Word(e), Pow2(128))>>
    [] e.op = "tooWide" -> \A i \in 1..Len(e.accs) : e.accs[i] = 0
    [] e.op = "trunks" -> Trunks(e)
    [] e.op = "six" -> IF BitLen(e.x) <= 48 THEN e.acc = 1 /\ e.out = Nibs(e.x, 12) ELSE e.acc = 0
    [] e.op = "pack" -> PackE(e)
    [] e.op = "packBad" -> e.acc = 0
    [] e.op = "decompose" -> Decomp(e)
    [] e.op = "byteBits" -> e.out = [i \in 1..8 |-> (e.b \div 2 ^ (8 - i)) % 2]
    [] e.op = "bitsMod" -> e.out = Mod(FromBits(Rev(e.bits)), e.m)
    [] e.op = "var" -> e.out = e.want /\ e.neg = e.wneg
    [] OTHER -> FALSE
MyStart(t) == 0
MyPost(t, q, e) == Ok(Holds(e), q + 1)
MyExpect(t, q, e) == IF e.op \in {"split", "merge", "resplit", "lrot", "lrotMerge"} THEN OutSizes(e.op, e) ELSE <<"see T_Bits">>
=============================================================================

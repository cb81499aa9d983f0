------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Arbitrary-size naturals as little-endian digit sequences in base 2^15,  *)
(* canonical (no leading zero digit; zero is <<>>).  TLC integers are only *)
(* 32 bits wide, and the field, curve and hash specifications need 256 to  *)
(* 760 bits.  Every operator has a definition in TLA+; spec/java/verif     *)
(* holds an evaluation override of the same operators for TLC, and         *)
(* BigNatCheck.tla checks the override against these definitions.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

B == 32768

RECURSIVE NormLen(_, _)
NormLen(a, n) == IF n = 0 THEN 0 ELSE IF a[n] # 0 THEN n ELSE NormLen(a, n - 1)
Norm(a) == SubSeq(a, 1, NormLen(a, Len(a)))

RECURSIVE NatOf(_)
NatOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NatOf(n \div B)

Dg(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Mx(x, y) == IF x > y THEN x ELSE y

RECURSIVE AddC(_, _, _, _, _)
AddC(a, b, i, n, c) ==
  IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dg(a, i) + Dg(b, i) + c IN <<s % B>> \o AddC(a, b, i + 1, n, s \div B)
DAdd(a, b) == Norm(AddC(a, b, 1, Mx(Len(a), Len(b)), 0))

RECURSIVE SubC(_, _, _, _, _)
SubC(a, b, i, n, c) ==
  IF i > n THEN <<>>
  ELSE LET s == Dg(a, i) + B - Dg(b, i) - c IN <<s % B>> \o SubC(a, b, i + 1, n, 1 - (s \div B))
\* defined for a >= b
DSub(a, b) == Norm(SubC(a, b, 1, Len(a), 0))

RECURSIVE CmpC(_, _, _)
CmpC(a, b, i) == IF i = 0 THEN 1 ELSE IF a[i] < b[i] THEN 0 ELSE IF a[i] > b[i] THEN 2 ELSE CmpC(a, b, i - 1)
\* 0: a < b, 1: a = b, 2: a > b
DCmp(a, b) == IF Len(a) < Len(b) THEN 0 ELSE IF Len(a) > Len(b) THEN 2 ELSE CmpC(a, b, Len(a))

RECURSIVE MulD(_, _, _, _)
MulD(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c IN <<s % B>> \o MulD(a, d, i + 1, s \div B)
RECURSIVE MulC(_, _, _)
MulC(a, b, j) == IF j > Len(b) THEN <<>>
                 ELSE DAdd(MulD(a, b[j], 1, 0), LET r == MulC(a, b, j + 1) IN IF r = <<>> THEN r ELSE <<0>> \o r)
DMul(a, b) == Norm(MulC(a, b, 1))

\* bit k of a (k from 0), doubling
Bit(a, k) == (Dg(a, (k \div 15) + 1) \div (2 ^ (k % 15))) % 2
RECURSIVE BitsOfDigit(_)
BitsOfDigit(d) == IF d = 0 THEN 0 ELSE 1 + BitsOfDigit(d \div 2)
DBitLen(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + BitsOfDigit(a[Len(a)])

RECURSIVE DivC(_, _, _, _, _)
\* schoolbook binary long division: from the top bit down
DivC(a, m, k, q, r) ==
  IF k = 0 THEN <<q, r>>
  ELSE LET r2 == DAdd(DAdd(r, r), NatOf(Bit(a, k - 1)))
           q2 == DAdd(q, q)
       IN IF DCmp(r2, m) >= 1 THEN DivC(a, m, k - 1, DAdd(q2, <<1>>), DSub(r2, m))
          ELSE DivC(a, m, k - 1, q2, r2)
DDiv(a, m) == DivC(a, m, DBitLen(a), <<>>, <<>>)[1]
DMod(a, m) == DivC(a, m, DBitLen(a), <<>>, <<>>)[2]

RECURSIVE DPow(_, _, _)
\* a^e mod m
DPow(a, e, m) ==
  IF e = <<>> THEN DMod(<<1>>, m)
  ELSE LET h == DPow(a, DDiv(e, <<2>>), m)
           s == DMod(DMul(h, h), m)
       IN IF Bit(e, 0) = 1 THEN DMod(DMul(s, a), m) ELSE s

RECURSIVE DFromBytes(_)
\* big-endian bytes
DFromBytes(bs) == IF bs = <<>> THEN <<>>
  ELSE DAdd(DMul(DFromBytes(SubSeq(bs, 1, Len(bs) - 1)), <<256>>), NatOf(bs[Len(bs)]))
RECURSIVE DToBytes(_, _)
\* big-endian, n bytes, truncated to the low n bytes
DToBytes(a, n) == IF n = 0 THEN <<>> ELSE DToBytes(DDiv(a, <<256>>), n - 1) \o <<LET r == DMod(a, <<256>>) IN IF r = <<>> THEN 0 ELSE r[1]>>
\* little-endian bits, n of them
DToBits(a, n) == [i \in 1..n |-> Bit(a, i - 1)]
RECURSIVE DFromBits(_)
DFromBits(bs) == IF bs = <<>> THEN <<>> ELSE DAdd(DMul(DFromBits(Tail(bs)), <<2>>), NatOf(bs[1]))

(* The names the other modules use; the override replaces these. *)
Add(a, b) == DAdd(a, b)
Sub(a, b) == DSub(a, b)
Mul(a, b) == DMul(a, b)
Div(a, m) == DDiv(a, m)
Mod(a, m) == DMod(a, m)
Cmp(a, b) == DCmp(a, b)
PowMod(a, e, m) == DPow(a, e, m)
BitLen(a) == DBitLen(a)
FromBytes(bs) == DFromBytes(bs)
ToBytes(a, n) == DToBytes(a, n)
FromBits(bs) == DFromBits(bs)
ToBits(a, n) == DToBits(a, n)
AddMod(a, b, m) == Mod(Add(a, b), m)
SubMod(a, b, m) == Mod(Sub(Add(a, m), b), m)     \* b <= m
MulMod(a, b, m) == Mod(Mul(a, b), m)
InvMod(a, p) == PowMod(a, Sub(p, <<2>>), p)      \* p prime; 0 -> 0
Lt(a, b) == Cmp(a, b) = 0
Leq(a, b) == Cmp(a, b) <= 1
Zero == <<>>
One == <<1>>
IsBig(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(B - 1)
            /\ (a # <<>> => a[Len(a)] # 0)
RECURSIVE Pow2(_)
Pow2(n) == IF n < 15 THEN <<2 ^ n>> ELSE <<0>> \o Pow2(n - 15)
\* hexadecimal digits (most significant first) given as a sequence of 0..15
RECURSIVE FromHex(_)
FromHex(h) == IF h = <<>> THEN <<>> ELSE Add(Mul(FromHex(SubSeq(h, 1, Len(h) - 1)), <<16>>), NatOf(h[Len(h)]))
=============================================================================

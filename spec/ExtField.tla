----------------------------- MODULE ExtField -----------------------------
(* Extension fields of a prime field: F_p[w] modulo w^n = r[1] + r[2] w +  *)
(* ... + r[n] w^(n-1).  A field is a record [p, r]; an element is the      *)
(* sequence of its n coefficients.  The three operators that carry the     *)
(* weight have evaluation overrides, checked by OverridesCheck.            *)
EXTENDS BigNat, TLC

RECURSIVE PolyHorner(_, _, _, _, _, _)
PolyHorner(p, r, a, b, i, acc) ==
  IF i = 0 THEN acc
  ELSE LET n == Len(r)
           top == acc[n]
           nx == [j \in 1..n |-> AddMod(AddMod(IF j = 1 THEN <<>> ELSE acc[j - 1], MulMod(top, r[j], p), p), MulMod(b[i], a[j], p), p)]
       IN PolyHorner(p, r, a, b, i - 1, nx)
DPolyMul(p, r, a, b) == PolyHorner(p, r, a, b, Len(r), [j \in 1..Len(r) |-> <<>>])
PolyOne(n) == [j \in 1..n |-> IF j = 1 THEN One ELSE <<>>]
RECURSIVE PolyPowBits(_, _, _, _, _)
PolyPowBits(p, r, a, bs, acc) ==     \* bs from the top bit
  IF bs = <<>> THEN acc
  ELSE LET s2 == DPolyMul(p, r, acc, acc) IN PolyPowBits(p, r, a, Tail(bs), IF bs[1] = 1 THEN DPolyMul(p, r, s2, a) ELSE s2)
DPolyPow(p, r, a, e) == LET n == BitLen(e) bs == ToBits(e, n) IN
  PolyPowBits(p, r, a, [i \in 1..n |-> bs[n + 1 - i]], PolyOne(Len(r)))
RECURSIVE NatPow(_, _)
NatPow(b, e) == IF e = 0 THEN One ELSE Mul(b, NatPow(b, e - 1))
DPolyInv(p, r, a) == DPolyPow(p, r, a, Sub(NatPow(p, Len(r)), <<2>>))     \* 0 -> 0

PolyMul(p, r, a, b) == DPolyMul(p, r, a, b)
PolyPow(p, r, a, e) == DPolyPow(p, r, a, e)
PolyInv(p, r, a) == DPolyInv(p, r, a)

XN(K) == Len(K.r)
XMul(K, a, b) == PolyMul(K.p, K.r, a, b)
XPow(K, a, e) == PolyPow(K.p, K.r, a, e)
XInv(K, a) == PolyInv(K.p, K.r, a)
XAdd(K, a, b) == [i \in 1..XN(K) |-> AddMod(a[i], b[i], K.p)]
XSub(K, a, b) == [i \in 1..XN(K) |-> SubMod(a[i], b[i], K.p)]
XSq(K, a) == XMul(K, a, a)
XDiv(K, a, b) == XMul(K, a, XInv(K, b))
XOne(K) == PolyOne(XN(K))
XZero(K) == [i \in 1..XN(K) |-> <<>>]
XNeg(K, a) == XSub(K, XZero(K), a)
XOf(K, c) == [i \in 1..XN(K) |-> IF i = 1 THEN Mod(c, K.p) ELSE <<>>]     \* a constant of the prime field
XScale(K, c, a) == [i \in 1..XN(K) |-> MulMod(c, a[i], K.p)]
XGen(K) == [i \in 1..XN(K) |-> IF i = 2 THEN One ELSE <<>>]               \* w
XFrob(K, a, k) == XPow(K, a, NatPow(K.p, k))
=============================================================================

------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Fixed-width machine words as sequences of 16-bit limbs, least           *)
(* significant first: two limbs for a 32-bit word, four for a 64-bit one.  *)
(* The W* operators are evaluated by an override in TLC; the D* operators  *)
(* are their definitions and WordsCheck.tla compares the two.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

DXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
DAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
DNot(a) == [i \in 1..Len(a) |-> 65535 - a[i]]
RECURSIVE WAddC(_, _, _, _)
WAddC(a, b, i, c) == IF i > Len(a) THEN <<>>
                     ELSE LET s == a[i] + b[i] + c IN <<s % 65536>> \o WAddC(a, b, i + 1, s \div 65536)
DWAdd(a, b) == WAddC(a, b, 1, 0)
WBit(a, k) == (a[(k \div 16) + 1] \div (2 ^ (k % 16))) % 2
OfBitFn(n, f(_)) == [i \in 1..n |-> LET g(j) == f(16 * (i - 1) + j) * (2 ^ j)
   IN g(0)+g(1)+g(2)+g(3)+g(4)+g(5)+g(6)+g(7)+g(8)+g(9)+g(10)+g(11)+g(12)+g(13)+g(14)+g(15)]
\* rotate left by r (0 <= r < width) and shift right by r
DRotl(a, r) == LET w == 16 * Len(a) f(k) == WBit(a, (k - r + w) % w) IN OfBitFn(Len(a), f)
DShr(a, r) == LET w == 16 * Len(a) f(k) == IF k + r < w THEN WBit(a, k + r) ELSE 0 IN OfBitFn(Len(a), f)

WXor(a, b) == DXor(a, b)
WAnd(a, b) == DAnd(a, b)
WNot(a) == DNot(a)
WAdd(a, b) == DWAdd(a, b)
WRotl(a, r) == DRotl(a, r)
WShr(a, r) == DShr(a, r)
WRotr(a, r) == WRotl(a, 16 * Len(a) - r)
=============================================================================

------------------------------- MODULE Select -------------------------------
(***************************************************************************)
(* Selection primitives.  First the networks the gadgets are built from    *)
(* (decoder and dot product, barrel shifters, running match count), then   *)
(* what they are meant to compute; MC_Select checks that they agree for    *)
(* every size, input and control value up to a bound, and T_Select holds   *)
(* recorded runs of the gadgets to the meaning.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* ---- meaning ----
RotL(a, s) == [j \in 1..Len(a) |-> a[((j - 1 + s) % Len(a)) + 1]]
ShR(a, s, zero) == [j \in 1..Len(a) |-> IF j - s >= 1 THEN a[j - s] ELSE zero]
PrefixEq(a, b, n) == \A i \in 1..n : a[i] = b[i]
RECURSIVE BitLenOf(_)
BitLenOf(n) == IF n = 0 THEN 0 ELSE 1 + BitLenOf(n \div 2)

\* ---- networks (over integers) ----
RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
OneHot(n, s) == [i \in 1..n |-> IF i - 1 = s THEN 1 ELSE 0]
NetMux(a, s) == LET d == OneHot(Len(a), s) IN [v |-> SumF([i \in 1..Len(a) |-> a[i] * d[i]], Len(a)), ok |-> SumF(d, Len(a)) = 1]
BitAt(n, k) == (n \div 2 ^ k) % 2
RECURSIVE NetRot(_, _, _, _)
NetRot(a, s, k, bits) == IF k = bits THEN a
  ELSE NetRot([j \in 1..Len(a) |-> a[j] + BitAt(s, k) * (a[((j - 1 + 2 ^ k) % Len(a)) + 1] - a[j])], s, k + 1, bits)
NetShl(a, min, max, s) == LET bits == BitLenOf(max - min) IN
  IF min = max THEN [ok |-> TRUE, v |-> RotL(a, min)]
  ELSE [ok |-> s - min \in 0..(2 ^ bits - 1), v |-> NetRot(RotL(a, min), s - min, 0, bits)]
RECURSIVE NetShrK(_, _, _, _)
NetShrK(a, s, k, bits) == IF k = bits THEN a
  ELSE NetShrK([j \in 1..Len(a) |-> IF j - 2 ^ k >= 1 THEN a[j] + BitAt(s, k) * (a[j - 2 ^ k] - a[j]) ELSE a[j] - BitAt(s, k) * a[j]], s, k + 1, bits)
RECURSIVE Matches(_, _, _)
Matches(a, b, n) == IF n = 0 THEN 0 ELSE Matches(a, b, n - 1) + (IF a[n] = b[n] THEN 1 ELSE 0)
=============================================================================

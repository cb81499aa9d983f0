------------------------------- MODULE Limbs --------------------------------
(* Numbers as sequences of limbs of given bit sizes, most significant first. *)
EXTENDS BigNat

RECURSIVE SumTo(_, _)
SumTo(sz, n) == IF n = 0 THEN 0 ELSE sz[n] + SumTo(sz, n - 1)
Total(sz) == SumTo(sz, Len(sz))
Fit(v, sz) == \A i \in 1..Len(sz) : BitLen(v[i]) <= sz[i]
RECURSIVE ValC(_, _, _, _)
ValC(v, sz, i, acc) == IF i > Len(v) THEN acc ELSE ValC(v, sz, i + 1, Add(Mul(acc, Pow2(sz[i])), v[i]))
\* weighted sum, whether or not the limbs fit
Value(v, sz) == ValC(v, sz, 1, <<>>)
RECURSIVE CutC(_, _, _, _)
CutC(x, sz, i, acc) == IF i = 0 THEN acc
  ELSE CutC(Div(x, Pow2(sz[i])), sz, i - 1, <<Mod(x, Pow2(sz[i]))>> \o acc)
Cut(x, sz) == CutC(x, sz, Len(sz), <<>>)
\* cnt limbs of n bits from the top, the rest in one last limb
SplitSizes(s, n, cnt) == LET k == IF cnt = 0 THEN s \div n ELSE cnt
                             rem == s - k * n
                         IN [i \in 1..k |-> n] \o (IF rem > 0 THEN <<rem>> ELSE <<>>)
\* rotation to the left by a of a number of t bits
RotlBits(x, t, a) == LET k == a % t  hi == Div(x, Pow2(t - k))  lo == Mod(x, Pow2(t - k)) IN Add(Mul(lo, Pow2(k)), hi)
=============================================================================

----------------------------- MODULE MC_Select ------------------------------
EXTENDS Select, TLC
CONSTANTS N, Vals, MaxShift
VARIABLES a, b, s, min, max
vars == <<a, b, s, min, max>>
Arrs == UNION {[1..n -> Vals] : n \in 1..N}
\* the input is built up element by element, then the controls are chosen: the search is parallel
Init == a = <<>> /\ b = <<>> /\ s = -1 /\ min = -1 /\ max = -1
Next == \/ /\ s = -1 /\ Len(a) < N /\ \E x \in Vals, y \in Vals : a' = Append(a, x) /\ b' = Append(b, y)
           /\ UNCHANGED <<s, min, max>>
        \/ /\ s = -1 /\ Len(a) > 0
           /\ \E lo \in 0..2, d \in 0..4, t \in 0..MaxShift : min' = lo /\ max' = lo + d /\ s' = t
           /\ UNCHANGED <<a, b>>
Done == s >= 0
MuxOk == Done => LET m == NetMux(a, s) IN m.ok = (s < Len(a)) /\ (m.ok => m.v = a[s + 1])
ShlOk == Done => LET m == NetShl(a, min, max, s) IN
   /\ s \in min..max => m.ok
   /\ (m.ok /\ (min # max)) => m.v = RotL(a, s)
   /\ (min = max) => m.v = RotL(a, min)
ShrOk == Done => NetShrK(a, s, 0, BitLenOf(MaxShift)) = ShR(a, s, 0)
EqOk == Done => \A t \in 0..Len(a) : (Matches(a, b, t) = t) = PrefixEq(a, b, t)
Inv == MuxOk /\ ShlOk /\ ShrOk /\ EqOk
=============================================================================

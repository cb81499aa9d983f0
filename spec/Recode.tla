-------------------------------- MODULE Recode --------------------------------
(* Recodings of scalars into signed digits, by which points are multiplied:  *)
(* radix 16 with digits from -8 to 8 and forms of width V in which of V      *)
(* neighbours at most one digit is not zero.  A digit at a time; the digits  *)
(* so far and the carry always stand for the part of the scalar read.        *)
(* Faults, each refuted: "carry" (the carry is lost at an even window),      *)
(* "half" (a digit of half the width is kept), "top" (the last digit is      *)
(* recentred as the others).                                                 *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Bits, V, Kind, Fault      \* Kind: "naf" | "radix"
VARIABLES x, pos, carry, dig
vars == <<x, pos, carry, dig>>
Step == IF Kind = "naf" THEN 1 ELSE 4
Slots == IF Kind = "naf" THEN Bits + 1 ELSE Bits \div 4
Init == x \in 0..(2 ^ (Bits - 1) - 1) /\ pos = 0 /\ carry = 0 /\ dig = [i \in 1..Slots |-> 0]
Window(n) == (x \div 2 ^ pos) % (2 ^ n)
Naf == /\ Kind = "naf" /\ pos < Slots
       /\ LET w == carry + Window(V) IN
          IF w % 2 = 0 THEN pos' = pos + 1 /\ carry' = (IF Fault = "carry" THEN 0 ELSE carry) /\ UNCHANGED dig
          ELSE LET big == IF Fault = "half" THEN w > 2 ^ (V - 1) + 1 ELSE w >= 2 ^ (V - 1) IN
               /\ dig' = [dig EXCEPT ![pos + 1] = IF big THEN w - 2 ^ V ELSE w]
               /\ carry' = (IF big THEN 1 ELSE 0)
               /\ pos' = pos + V
       /\ UNCHANGED x
Radix == /\ Kind = "radix" /\ pos < Bits
         /\ LET w == carry + Window(4) last == pos + 4 >= Bits
                c == IF last /\ Fault # "top" THEN 0 ELSE (w + 8) \div 16 IN
            dig' = [dig EXCEPT ![pos \div 4 + 1] = w - 16 * c] /\ carry' = c
         /\ pos' = pos + 4 /\ UNCHANGED x
Next == Naf \/ Radix
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE dig[i] * 2 ^ (Step * (i - 1)) + Sum(i - 1)
End == pos >= (IF Kind = "naf" THEN Slots ELSE Bits)
Stands == IF End THEN Sum(Slots) = x ELSE Sum(Slots) + carry * 2 ^ pos = x % 2 ^ pos
Small == \A i \in 1..Slots : IF Kind = "naf" THEN dig[i] = 0 \/ (dig[i] % 2 = 1 /\ dig[i] < 2 ^ (V - 1) /\ dig[i] > -(2 ^ (V - 1)))
                             ELSE dig[i] >= -8 /\ dig[i] <= 8
Sparse == Kind = "naf" => \A i \in 1..Slots : dig[i] # 0 => \A j \in (i + 1)..(i + V - 1) : j <= Slots => dig[j] = 0
=============================================================================

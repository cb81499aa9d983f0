---------------------------- MODULE MC_TxIndex ------------------------------
(* The case split the index gadget uses equals the RLP key of every index,  *)
(* and the keys of distinct indices are distinct (no key is a prefix of     *)
(* another, so the tries of transactions and receipts are well formed).     *)
EXTENDS Integers, Sequences, Rlp
VARIABLES n
Init == n = -1
Next == \/ n = -1 /\ \E k \in 0..255 : n' = 256 * k
        \/ n >= 0 /\ n % 256 = 0 /\ \E k \in 1..255 : n' = n + k
\* as in the gadget: prefix by magnitude, high byte swapped with the low one when it is zero
Lo(x) == x % 256
Hi(x) == x \div 256
Prefix(x) == IF x = 0 THEN 128 ELSE IF x < 128 THEN x ELSE IF x < 256 THEN 129 ELSE 130
Gadget(x) == LET sw == Hi(x) = 0
                 z == x > 0 /\ x < 128
                 b0 == IF z THEN 0 ELSE IF sw THEN Lo(x) ELSE Hi(x)
                 b1 == IF z THEN 0 ELSE IF sw THEN Hi(x) ELSE Lo(x)
             IN NibblesOf(<<Prefix(x), b0, b1>>) \o <<0>>
Key(x) == NibblesOf(RlpNat(x))
Padded(k) == k \o [i \in 1..(7 - Len(k)) |-> 0]
Exact == n >= 0 => Gadget(n) = Padded(Key(n))
\* decoding the key gives the index back (hence distinct), and the first byte tells the length (prefix-free)
Decode(k) == LET b == [i \in 1..(Len(k) \div 2) |-> 16 * k[2 * i - 1] + k[2 * i]] IN
   CASE b[1] = 128 -> 0 [] b[1] < 128 -> b[1] [] b[1] = 129 -> b[2] [] b[1] = 130 -> 256 * b[2] + b[3]
KeyLen(k) == LET p == 16 * k[1] + k[2] IN IF p <= 128 THEN 2 ELSE 2 * (p - 127)
Injective == n >= 0 => Decode(Key(n)) = n /\ KeyLen(Key(n)) = Len(Key(n))
Inv == Exact /\ Injective
=============================================================================

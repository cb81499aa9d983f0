---------------------------------- MODULE Fe ----------------------------------
(* Field elements in limbs of W bits, N of them, modulo p = 2^(W*N) - C, the *)
(* way the host library keeps them: a sum or a difference is carried once,   *)
(* so limbs may be somewhat above their width, and only Canon makes the      *)
(* number unique.  An accumulator goes through every operation with every    *)
(* operand; its limbs stay inside Bound, nothing drops below zero or leaves  *)
(* a word, and the number is the one the operations say, modulo p.           *)
(* Faults, each refuted: "once" (a difference adds p once only), "wrap" (the *)
(* last carry is dropped), "raw" (a sum is not carried), "canon" (the        *)
(* canonical form forgets the numbers from p to 2^(W*N)), "mul" (a carry of  *)
(* a product is dropped).                                                    *)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, C, Word, Fault
N == 3
R == 2 ^ W
Pm == 2 ^ (W * N) - C
VARIABLES acc, was, op, arg
vars == <<acc, was, op, arg>>
Value(l) == l[1] + l[2] * R + l[3] * R * R
Edge == {0, R - 2, R - 1}
Operands == {<<x, y, z>> : x \in Edge \cup {R + 5}, y \in Edge \cup {R + 2}, z \in Edge \cup {R + 2}}
Carry(l) == LET c == [i \in 1..N |-> l[i] \div R] IN
  [i \in 1..N |-> (l[i] % R) + (IF i = 1 THEN (IF Fault = "wrap" THEN c[N] ELSE c[N] * C) ELSE c[i - 1])]
Plus(a, b) == LET l == [i \in 1..N |-> a[i] + b[i]] IN IF Fault = "raw" THEN l ELSE Carry(l)
K == IF Fault = "once" THEN 1 ELSE 2
Lift == [i \in 1..N |-> IF i = 1 THEN K * (R - C) ELSE K * (R - 1)]
Diff0(a, b) == [i \in 1..N |-> a[i] + Lift[i] - b[i]]
Minus(a, b) == Carry(Diff0(a, b))
\* columns of the product, then a carry through them, twice
Col(a, b, k) == (IF k = 1 THEN a[1] * b[1] + C * (a[2] * b[3] + a[3] * b[2])
                 ELSE IF k = 2 THEN a[1] * b[2] + a[2] * b[1] + C * a[3] * b[3]
                 ELSE a[1] * b[3] + a[2] * b[2] + a[3] * b[1])
Product(a, b) ==
  LET r1 == Col(a, b, 1) r2 == Col(a, b, 2) r3 == Col(a, b, 3)
      l == <<(r1 % R) + (r3 \div R) * (IF Fault = "mul" THEN 1 ELSE C), (r2 % R) + (r1 \div R), (r3 % R) + (r2 \div R)>> IN Carry(l)
Canon(l0) ==
  LET l == Carry(l0)
      c == IF Fault = "canon" THEN (((l[1] \div R) + l[2]) \div R + l[3]) \div R
           ELSE (((((l[1] + C) \div R) + l[2]) \div R) + l[3]) \div R
      x1 == l[1] + C * c
      x2 == l[2] + x1 \div R
      x3 == l[3] + x2 \div R IN <<x1 % R, x2 % R, x3 % R>>
Init == acc \in {<<x, y, z>> : x \in 0..(R - 1), y \in Edge, z \in Edge} /\ was = acc /\ op = "load" /\ arg = <<0, 0, 0>>
Next == /\ \E b \in Operands :
            /\ arg' = b
            /\ \/ op' = "add" /\ acc' = Plus(acc, b)
               \/ op' = "sub" /\ acc' = Minus(acc, b)
               \/ op' = "neg" /\ b = <<0, 0, 0>> /\ acc' = Minus(b, acc)
               \/ op' = "mul" /\ acc' = Product(acc, b)
               \/ op' = "sq" /\ b = <<0, 0, 0>> /\ acc' = Product(acc, acc)
        /\ was' = acc
\* what the next operation may rely on
Bound == \A i \in 1..N : acc[i] >= 0 /\ acc[i] <= R + C * 8
Positive == \A b \in {acc} \cup {<<0, 0, 0>>} : \A i \in 1..N : Diff0(<<0, 0, 0>>, b)[i] >= 0
InWord == \A i \in 1..N : acc[i] + Lift[i] < Word
Right == Value(acc) % Pm =
  (CASE op = "add" -> (Value(was) + Value(arg)) % Pm
     [] op = "sub" -> (Value(was) + 4 * Pm - Value(arg)) % Pm
     [] op = "neg" -> (4 * Pm - Value(was)) % Pm
     [] op = "mul" -> ((Value(was) % Pm) * (Value(arg) % Pm)) % Pm
     [] op = "sq" -> ((Value(was) % Pm) * (Value(was) % Pm)) % Pm
     [] OTHER -> Value(acc) % Pm)
Unique == Value(Canon(acc)) = Value(acc) % Pm /\ \A i \in 1..N : Canon(acc)[i] < R
View == <<acc, IF Right THEN "y" ELSE "n">>
=============================================================================

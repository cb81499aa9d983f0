------------------------------ MODULE T_Select ------------------------------
(* Sessions of the selection primitives (C07) and of the index key (C13).  *)
EXTENDS TraceBase, BigNat, Select, Rlp
P == FromHex(<<3,0,6,4,4,14,7,2,14,1,3,1,10,0,2,9,11,8,5,0,4,5,11,6,8,1,8,1,5,8,5,13,2,8,3,3,14,8,4,8,7,9,11,9,7,0,9,1,4,3,14,1,15,5,9,3,15,0,0,0,0,0,0,1>>)
SmallOf(d) == IF d = <<>> THEN 0 ELSE IF Len(d) = 1 THEN d[1] ELSE IF Len(d) = 2 /\ d[2] < 30000 THEN d[1] + B * d[2] ELSE -1
Bool(c) == IF c THEN <<1>> ELSE <<>>
RECURSIVE Dot(_, _, _)
Dot(a, b, n) == IF n = 0 THEN <<>> ELSE AddMod(MulMod(a[n], b[n], P), Dot(a, b, n - 1), P)

Mux(e) == LET k == SmallOf(e.sel) IN
  IF k \in 0..(e.n - 1) THEN e.acc = 1 /\ e.out = [i \in 1..Len(e.rows) |-> e.rows[i][k + 1]] ELSE e.acc = 0
Decode(e) == LET k == SmallOf(e.sel) IN
  e.acc = 1 /\ e.out = [i \in 1..(e.n + 1) |-> Bool(IF i <= e.n THEN i - 1 = k ELSE k \in 0..(e.n - 1))]
DotE(e) == e.acc = 1 /\ e.out = <<Dot(e.a, e.b, Len(e.a))>>
CmpE(e) == e.acc = 1 /\ e.out = <<Bool(e.a = e.b), Bool(Lt(e.a, e.b))>>
AEq(e) == LET t == SmallOf(e.t) IN
  IF t \in 0..e.max THEN e.acc = 1 /\ e.out = <<Bool(PrefixEq(e.a, e.b, t))>> ELSE e.acc = 0
Sub2(e) == LET f == SmallOf(e.from)  n == SmallOf(e.end) IN
  IF f >= 0 /\ n >= 0 /\ f <= n /\ n <= Len(e.in) /\ n - f <= e.ms
  THEN /\ e.acc = 1
       /\ Len(e.out) = e.ms + 1
       /\ e.out[e.ms + 1] = NatOf(n - f)
       /\ \A i \in 1..(n - f) : e.out[i] = e.in[f + i]
  ELSE e.acc = 0
\* within the declared range the shift must work; beyond it, it may work exactly or be refused, and
\* beyond what the control bits can hold it must be refused
Shl(e) == LET k == SmallOf(e.s)  top == e.min + 2 ^ BitLenOf(e.max - e.min) - 1 IN
  IF e.min = e.max THEN IF k = e.min THEN e.acc = 1 /\ e.out = RotL(e.in, k) ELSE e.acc = 0 \/ e.out = RotL(e.in, e.min)
  ELSE IF k \in e.min..e.max THEN e.acc = 1 /\ e.out = RotL(e.in, k)
  ELSE IF k \in e.min..top THEN e.acc = 0 \/ e.out = RotL(e.in, k)
  ELSE e.acc = 0
Shr(e) == LET k == SmallOf(e.s) IN
  IF k \in 0..(2 ^ e.bits - 1) THEN e.acc = 1 /\ e.out = ShR(e.in, k, <<>>) ELSE e.acc = 0

IndexKey(n) == LET k == NibblesOf(RlpNat(n)) IN k \o [i \in 1..(7 - Len(k)) |-> 0]
Index(e) == LET n == SmallOf(e.n) IN
  IF n \in 0..65535 THEN e.acc = 1 /\ e.out = IndexKey(n) /\ e.circ = 1 /\ e.circBad = 0 ELSE e.acc = 0 /\ e.circ = 0

Holds(e) ==
  CASE e.op = "mux" -> Mux(e)
    [] e.op = "decode" -> Decode(e)
    [] e.op = "dot" -> DotE(e)
    [] e.op = "cmp" -> CmpE(e)
    [] e.op = "arrayEqual" -> AEq(e)
    [] e.op = "subArray" -> Sub2(e)
    [] e.op = "shl" -> Shl(e)
    [] e.op = "shr" -> Shr(e)
    [] e.op = "logCeil" -> e.out = BitLenOf(e.n)
    [] e.op = "index" -> Index(e)
    [] OTHER -> FALSE
MyStart(t) == 0
MyPost(t, q, e) == Ok(Holds(e), q + 1)
MyExpect(t, q, e) == IF e.op = "index" /\ SmallOf(e.n) \in 0..65535 THEN IndexKey(SmallOf(e.n)) ELSE "see T_Select"
=============================================================================

------------------------------ MODULE T_EdLib ------------------------------
(* Sessions of the host edwards25519 library: files of four registers, whose *)
(* operations may have the same register as receiver and argument.  After    *)
(* every operation every register is what the specification says (C39: field *)
(* elements and scalars; C40: points, by their encodings).                   *)
EXTENDS TraceBase, Edwards
E1 == TLCEval(Ed25519)
P == TLCEval(Ed25519.p)
L == TLCEval(Ed25519.n)
MyStart(t) == IF t.k = "point" THEN [i \in 1..4 |-> EdO] ELSE [i \in 1..4 |-> <<>>]
(* ------------------------------ field elements --------------------------- *)
MP(x, y) == MulMod(x, y, P)
NegP(x) == SubMod(<<>>, x, P)
SqrtM1 == TLCEval(PowMod(<<2>>, Div(Sub(Ed25519.p, One), <<4>>), Ed25519.p))
\* u/v is a square (0/0 counts as one, u/0 does not)
Ratio(u, v) == IF u = <<>> THEN TRUE ELSE v # <<>> /\ PowMod(MP(u, InvMod(v, P)), Div(Sub(P, One), <<2>>), P) = One
RootOk(u, v, r, w) ==
  /\ ~Odd(r)
  /\ IF u = <<>> \/ v = <<>> THEN r = <<>> /\ w = (IF u = <<>> THEN 1 ELSE 0)
     ELSE w = (IF Ratio(u, v) THEN 1 ELSE 0) /\ MP(v, MP(r, r)) = (IF w = 1 THEN u ELSE MP(SqrtM1, u))
Low255(x) == Mod(x, Pow2(255))
FieldOp(f, e) ==
  LET a == f[e.a] b == f[e.b] IN
  CASE e.op = "add" -> AddMod(a, b, P)
    [] e.op = "sub" -> SubMod(a, b, P)
    [] e.op = "neg" -> NegP(a)
    [] e.op = "mul" -> MP(a, b)
    [] e.op = "sq" -> MP(a, a)
    [] e.op = "inv" -> InvMod(a, P)
    [] e.op = "set" -> a
    [] e.op = "one" -> One
    [] e.op = "zero" -> <<>>
    [] e.op = "load" -> Mod(Low255(e.x), P)
    [] e.op = "select" -> IF e.flag = 1 THEN a ELSE b
    [] e.op = "abs" -> IF Odd(a) THEN NegP(a) ELSE a
    [] e.op = "mult32" -> MP(a, e.x)
    [] e.op = "pow22523" -> PowMod(a, Sub(Pow2(252), <<3>>), P)
    [] e.op = "sqrt" -> e.out[e.d]
    [] OTHER -> f[e.d]
Field(f, e) ==
  LET g == IF e.op = "swap" THEN (IF e.flag = 1 THEN [f EXCEPT ![e.d] = f[e.a], ![e.a] = f[e.d]] ELSE f)
           ELSE [f EXCEPT ![e.d] = FieldOp(f, e)] IN
  IF /\ e.res = (IF e.op = "badload" THEN "err" ELSE "ok")
     /\ e.out = g
     /\ e.op = "sqrt" => Lt(e.out[e.d], P) /\ RootOk(f[e.a], f[e.b], e.out[e.d], e.flag)
     /\ e.op = "eq" => e.flag = (IF f[e.a] = f[e.b] THEN 1 ELSE 0)
     /\ e.op = "sign" => e.flag = (IF Odd(f[e.a]) THEN 1 ELSE 0)
  THEN {g} ELSE {}
(* -------------------------------- scalars -------------------------------- *)
Clamp(x) == LET y == Mod(x, Pow2(254)) IN Sub(Add(y, Pow2(254)), Mod(y, <<8>>))
ScalarOp(f, e) ==
  LET a == f[e.a] b == f[e.b] IN
  CASE e.op = "sadd" -> AddMod(a, b, L)
    [] e.op = "ssub" -> SubMod(a, b, L)
    [] e.op = "sneg" -> SubMod(<<>>, a, L)
    [] e.op = "smul" -> MulMod(a, b, L)
    [] e.op = "smuladd" -> AddMod(MulMod(a, b, L), f[e.c], L)
    [] e.op = "sset" -> a
    [] e.op = "suniform" -> Mod(e.x, L)
    [] e.op = "sclamp" -> Mod(Clamp(e.x), L)
    [] e.op = "scanon" -> IF Lt(e.x, L) THEN e.x ELSE f[e.d]
    [] OTHER -> f[e.d]
Scalar(f, e) ==
  LET g == [f EXCEPT ![e.d] = ScalarOp(f, e)] IN
  IF /\ e.res = (IF e.op = "sbad" \/ (e.op = "scanon" /\ ~Lt(e.x, L)) THEN "err" ELSE "ok")
     /\ e.out = g
     /\ e.op = "seq" => e.flag = (IF f[e.a] = f[e.b] THEN 1 ELSE 0)
  THEN {g} ELSE {}
(* --------------------------------- points -------------------------------- *)
Num(Q) == Add(Q[2], IF Odd(Q[1]) THEN Pow2(255) ELSE <<>>)
\* the point an encoding stands for: any ordinate below 2^255, either sign at x = 0
Decode(x) ==
  LET y == Mod(Low255(x), P) yy == MP(y, y)
      u == SubMod(yy, One, P) v == AddMod(MP(E1.d, yy), One, P)
      q == MP(u, InvMod(v, P))
      \* a root of q, q a square: q^((p+3)/8), times sqrt(-1) if that squares to -q
      r == PowMod(q, Div(Add(P, <<3>>), <<8>>), P)
      r2 == IF MP(r, r) = q THEN r ELSE MP(r, SqrtM1)
      xx == IF Odd(r2) = (Bit(x, 255) = 1) THEN r2 ELSE NegP(r2)
  IN IF MP(r2, r2) = q THEN [ok |-> TRUE, pt |-> <<xx, y>>] ELSE [ok |-> FALSE, pt |-> EdO]
PointOp(f, e) ==
  LET A == f[e.a] Q == f[e.b] IN
  CASE e.op = "padd" -> EdAdd(E1, A, Q)
    [] e.op = "psub" -> EdAdd(E1, A, EdNeg(E1, Q))
    [] e.op = "pneg" -> EdNeg(E1, A)
    [] e.op = "pset" -> A
    [] e.op = "pgen" -> E1.g
    [] e.op = "pid" -> EdO
    [] e.op = "pload" -> LET q == Decode(e.x) IN IF q.ok THEN q.pt ELSE f[e.d]
    [] e.op = "pmul" -> EdMul(E1, e.s, A)
    [] e.op = "pbase" -> EdMul(E1, e.s, E1.g)
    [] e.op = "pdouble" -> EdAdd(E1, EdMul(E1, e.s, A), EdMul(E1, e.u, E1.g))
    [] OTHER -> f[e.d]
Point(f, e) ==
  LET g == TLCEval([f EXCEPT ![e.d] = PointOp(f, e)]) IN
  IF /\ CASE e.op = "pbad" -> e.res \in {"err", "panic"}
          [] e.op = "pload" -> e.res = (IF Decode(e.x).ok THEN "ok" ELSE "err")
          [] OTHER -> e.res = "ok"
     /\ \A i \in 1..4 : e.out[i] = Num(g[i])
     /\ e.op = "peq" => e.flag = (IF f[e.a] = f[e.b] THEN 1 ELSE 0)
     /\ e.op = "paffine" => <<e.s, e.u>> = f[e.a]
  THEN {g} ELSE {}
MyPost(t, f, e) == CASE t.k = "field" -> Field(f, e) [] t.k = "scalar" -> Scalar(f, e) [] OTHER -> Point(f, e)
MyExpect(t, f, e) == [regs |-> IF t.k = "field" THEN FieldOp(f, e) ELSE IF t.k = "scalar" THEN ScalarOp(f, e) ELSE Num(PointOp(f, e))]
=============================================================================

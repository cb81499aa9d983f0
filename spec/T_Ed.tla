-------------------------------- MODULE T_Ed --------------------------------
(* Sessions of the Ed25519 gadget (C25) and its curve operations (C26).     *)
EXTENDS TraceBase, Edwards, Sha2
E1 == TLCEval(Ed25519)
MyStart(t) == 0

\* ---- C25: one witness of the verifying circuit ----
Limb51(ls) == \A i \in 1..Len(ls) : Lt(ls[i], Pow2(51))
RECURSIVE OfLimbs(_)
OfLimbs(ls) == IF ls = <<>> THEN <<>> ELSE TLCEval(Add(ls[1], Mul(OfLimbs(Tail(ls)), Pow2(51))))
Formed(e) == /\ Limb51(e.ax) /\ Limb51(e.ay) /\ Limb51(e.rx) /\ Limb51(e.ry)
             /\ \A i \in 1..2 : Lt(e.pub[i], Pow2(128))
             /\ \A i \in 1..4 : Lt(e.msg[i], Pow2(200))
             /\ Lt(e.msg[5], Pow2(176))
Message(e) == ToBytes(e.msg[1], 25) \o ToBytes(e.msg[2], 25) \o ToBytes(e.msg[3], 25) \o ToBytes(e.msg[4], 25) \o ToBytes(e.msg[5], 22)
ValidE(e) ==
  /\ Formed(e)
  /\ LET A == TLCEval(<<OfLimbs(e.ax), OfLimbs(e.ay)>>) R == TLCEval(<<OfLimbs(e.rx), OfLimbs(e.ry)>>) IN
     /\ EdOn(E1, A) /\ EdOn(E1, R)
     /\ ToBytes(e.pub[1], 16) \o ToBytes(e.pub[2], 16) = EdEncode(A)
     /\ EdValid(E1, A, R, e.s, LittleEndian(Sha512(EdEncode(R) \o EdEncode(A) \o Message(e))))

\* ---- C26: coordinates stand for their residues ----
Red(q) == <<Mod(q[1], E1.p), Mod(q[2], E1.p)>>
OpE(e) ==
  CASE e.op = "oncurve" -> (e.acc = 1) = EdOn(E1, Red(e.p1))
    [] e.op = "isone" -> (e.acc = 1) = (Red(e.p1) = EdO)
    [] OTHER -> e.acc = 1 /\ e.out =
       (CASE e.op = "add" -> EdAdd(E1, Red(e.p1), Red(e.p2))
          [] e.op = "double" -> EdAdd(E1, Red(e.p1), Red(e.p1))
          [] e.op = "neg" -> EdNeg(E1, Red(e.p1))
          [] e.op = "mul" -> EdMul(E1, e.k[1], Red(e.p1))
          [] e.op = "mul2" -> EdAdd(E1, EdMul(E1, e.k[1], Red(e.p1)), EdMul(E1, e.k[2], Red(e.p2))))
MyPost(t, q, e) == IF e.op = "verify" THEN Ok((e.acc = 1) = ValidE(e), q) ELSE Ok(OpE(e), q)
MyExpect(t, q, e) == [op |-> e.op, want |-> IF e.op = "verify" THEN e.note ELSE e.op]
=============================================================================

------------------------------- MODULE T_Sha --------------------------------
(* Sessions of the streaming SHA-256 / SHA-512 gadgets (C04, C05).  The    *)
(* specification state is the bytes written since the last reset; Sum      *)
(* yields the digest of them and leaves the state alone.  "end" tells      *)
(* whether the circuit was satisfiable: exactly if every written element   *)
(* is a byte (elements too large for an int are recorded as -1).           *)
EXTENDS TraceBase, Sha2
Hash(t, m) == IF t.bs = 64 THEN Sha256(m) ELSE Sha512(m)
AllBytes(p) == \A i \in 1..Len(p) : p[i] \in 0..255
MyStart(t) == [m |-> <<>>, good |-> TRUE]
MyPost(t, q, e) ==
  CASE e.op = "write" -> {[m |-> q.m \o e.p, good |-> q.good /\ AllBytes(e.p)]}
    [] e.op = "reset" -> {[q EXCEPT !.m = <<>>]}
    [] e.op = "sum" -> Ok(q.good /\ e.out = Hash(t, q.m), q)
    [] e.op = "end" -> Ok((e.acc = 1) = q.good, q)
    [] OTHER -> {}
MyExpect(t, q, e) == IF e.op = "sum" /\ q.good THEN Hash(t, q.m) ELSE <<>>
=============================================================================

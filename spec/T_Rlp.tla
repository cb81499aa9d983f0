-------------------------------- MODULE T_Rlp --------------------------------
(* Sessions of the in-circuit RLP list decoders (C06).                      *)
EXTENDS TraceBase, RlpWalk, Rlp

Want(e) == IF e.nums < 0 THEN e.mf ELSE e.nums
\* what the decoder reports for one item; the nested decoder keeps list headers
Shown(e, it) == IF e.op = "nest" /\ it.list THEN Whole(e.in, it) ELSE Payload(e.in, it)
Exact(e, L) ==
  /\ e.acc = 1 /\ e.out = 1
  /\ e.total = L.total
  /\ Len(e.lens) = e.mf /\ Len(e.fields) = e.mf
  /\ \A i \in 1..e.mf :
       IF i <= Len(L.items) THEN e.fields[i] = Shown(e, L.items[i]) /\ e.lens[i] = Len(e.fields[i])
       ELSE e.lens[i] = 0
Bounded(e, L) ==
  /\ L.hdr - 2 <= e.ap
  /\ \A i \in 1..Len(L.items) : Len(Shown(e, L.items[i])) >= e.mn[i] /\ Len(Shown(e, L.items[i])) <= e.mx[i]
Rejected(e) == e.acc = 0 \/ e.out = 0
Holds(e) ==
  LET L == ListOf(e.in) IN
  IF L.ok /\ Len(L.items) = Want(e) /\ Want(e) <= e.mf
  THEN IF L.canon /\ Bounded(e, L) THEN Exact(e, L)
       ELSE Rejected(e) \/ Exact(e, L)
  ELSE \/ Rejected(e) \/ e.total > e.max
       \* a claimed count beyond the decoder's own means the decoder's own
       \/ e.op = "header" /\ L.ok /\ e.nums > e.mf /\ Len(L.items) = e.mf /\ Exact(e, L)
MyStart(t) == 0
One(c) == IF c THEN 1 ELSE 0
PrefixE(e) ==
  LET b == e.b
      lit == b < 128  list == b >= 192
      big == (b >= 184 /\ b < 192) \/ b >= 248
      plen == IF lit THEN 0 ELSE 2 * (IF list THEN b - (IF big THEN 247 ELSE 192) ELSE b - (IF big THEN 183 ELSE 128))
  IN e.out = <<One(big), One(lit), plen, 1, One(list), One(b = 192), One(b = 0),
               One(list /\ big), IF list THEN plen ELSE 0, One(list)>>
PayloadE(e) == LET h == ItemAt(e.in, 1) IN
  IF ~h.list THEN e.acc = 0
  ELSE e.acc = 1 /\ e.len = h.len /\ e.out = Payload(e.in, h)
MyPost(t, q, e) == Ok(CASE e.op = "prefix" -> PrefixE(e) [] e.op = "payload" -> PayloadE(e) [] OTHER -> Holds(e), q + 1)
MyExpect(t, q, e) == IF e.op \in {"prefix", "payload"} THEN <<"see T_Rlp">> ELSE LET L == ListOf(e.in) IN
  [ok |-> L.ok, canon |-> L.canon, n |-> Len(L.items), want |-> Want(e), total |-> L.total,
   bounded |-> IF Len(L.items) <= e.mf THEN Bounded(e, L) ELSE FALSE, lens |-> [i \in 1..Len(L.items) |-> Len(Shown(e, L.items[i]))],
   gotout |-> e.out, gotacc |-> e.acc, gotlens |-> e.lens, mn |-> e.mn, mx |-> e.mx, ap |-> e.ap]
=============================================================================

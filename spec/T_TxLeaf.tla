------------------------------ MODULE T_TxLeaf -------------------------------
(* Sessions of the in-circuit transaction leaf decoder (C33): the leaf is a  *)
(* list of the rest of the key and the type byte followed by the list of the *)
(* transaction's twelve fields.                                              *)
EXTENDS TraceBase, RlpWalk, Rlp, BigNat
MaxLens == <<16, 16, 16, 16, 8, 40, 64, 4030, 2, 2, 64, 64>>
MyStart(t) == 0
\* big-endian nibbles
NumOf(n) == FromHex(n)
Outer(e) == ListOf(e.in)
Value(e) == Payload(e.in, Outer(e).items[2])
Leafy(e) == LET L == Outer(e) IN L.ok /\ Len(L.items) = 2 /\ ~L.items[2].list /\ Len(Value(e)) > 2
Inner(e) == SubSeq(Value(e), 3, Len(Value(e)))
\* a list item is kept with its header
Shown(b, it) == IF it.list THEN Whole(b, it) ELSE Payload(b, it)
Fits(e) == LET L == Outer(e)  b == Inner(e)  M == ListOf(b) IN
  /\ L.canon /\ Len(Shown(e.in, L.items[1])) <= 2 /\ L.hdr - 2 <= 4
  /\ M.canon /\ M.hdr - 2 <= 6 /\ M.total = Len(b)
  /\ \A i \in 1..12 : Len(Shown(b, M.items[i])) <= MaxLens[i] /\ (i # 9 => ~M.items[i].list)
Split(n) == \* a number of at most 64 nibbles in two halves: what is below 2^248 and the top byte
  IF Len(n) < 63 THEN <<NumOf(n), <<>>>> ELSE <<NumOf(SubSeq(n, 3, Len(n))), NumOf(SubSeq(n, 1, 2))>>
\* a field beyond its bound is shown with its true length, cut at the bound
Is(want, got, len) == len = Len(want) /\ LET n == IF Len(want) > Len(got) THEN Len(got) ELSE Len(want) IN SubSeq(got, 1, n) = SubSeq(want, 1, n)
Exact(e) == LET b == Inner(e) M == ListOf(b) F(i) == Shown(b, M.items[i]) IN
  /\ \A i \in 1..7 : Is(F(i), e.f[i], e.lens[i]) /\ Len(e.f[i]) >= MaxLens[i]
  /\ SubSeq(e.signed, 1, Len(Value(e))) = Value(e)
  /\ e.v = NumOf(F(10)) /\ e.r = Split(F(11)) /\ e.s = Split(F(12))
\* a leaf that does not fit the buffer is no input of the decoder
Beyond(e) == LET h == ItemAt(e.in, 1) IN h.ok /\ h.hdr + h.len > 4352
LeafE(e) ==
  IF Beyond(e) THEN TRUE
  ELSE IF Leafy(e) /\ LET M == ListOf(Inner(e)) IN M.ok /\ Len(M.items) = 12
  THEN IF Fits(e) THEN e.acc = 1 /\ Exact(e) ELSE e.acc = 0 \/ Exact(e)
  ELSE e.acc = 0
DecE(e) == e.len <= e.max => e.acc = 1 /\ e.out = NumOf(SubSeq(e.in, 1, e.len))
TwoE(e) == e.len # 63 => e.acc = 1 /\ <<e.lo, e.hi>> = Split(SubSeq(e.in, 1, e.len))
MyPost(t, q, e) == Ok(CASE e.op = "leaf" -> LeafE(e) [] e.op = "dec" -> DecE(e) [] e.op = "two" -> TwoE(e) [] OTHER -> FALSE, q)
MyExpect(t, q, e) == IF e.op # "leaf" THEN <<NumOf(SubSeq(e.in, 1, e.len))>>
  ELSE IF ~Leafy(e) THEN <<"no leaf">> ELSE LET M == ListOf(Inner(e)) IN
    <<M.ok, Len(M.items), IF M.ok /\ Len(M.items) = 12 THEN <<Fits(e), [i \in 1..12 |-> Len(Shown(Inner(e), M.items[i]))]>> ELSE <<>>, e.acc, e.lens>>
=============================================================================

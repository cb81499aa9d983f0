------------------------------- MODULE MC_Rlp -------------------------------
(* The two halves of the RLP specification agree: reading an encoded list    *)
(* gives back its fields, whatever follows it, and no proper prefix and no   *)
(* change of the list header reads as a list of the same fields.             *)
EXTENDS Rlp, RlpWalk, TLC
Const(n, b) == [i \in 1..n |-> b]
Strs == {<<>>, <<0>>, <<127>>, <<128>>, <<200>>, <<0, 0>>, Const(55, 7), Const(56, 7), Const(255, 9), Const(256, 9)}
Lists == {<<192>>, <<193, 128>>, RlpLen(192, 55) \o Const(55, 128), RlpLen(192, 57) \o Const(57, 128)}
Encs == {RlpStr(b) : b \in Strs} \cup Lists
Pads == {<<>>, <<0, 0, 0>>, <<8, 1, 8>>, <<15, 15>>}
VARIABLES fs, pad
Init == fs \in ({<<>>} \cup {<<a>> : a \in Encs} \cup {<<a, b>> : a \in Encs, b \in Encs} \cup {<<a, b, c>> : a \in Encs, b \in {<<128>>, <<192>>, <<0>>}, c \in Encs}) /\ pad \in Pads
Next == UNCHANGED <<fs, pad>>
Buf == NibblesOf(RlpList(fs))
RoundTrip == LET L == ListOf(Buf \o pad) IN
  /\ L.ok /\ L.canon /\ Len(L.items) = Len(fs) /\ L.total = Len(Buf)
  /\ \A i \in 1..Len(fs) : Whole(Buf \o pad, L.items[i]) = NibblesOf(fs[i])
NoPrefix == Len(pad) = 0 => \A n \in {0, Len(Buf) - 1, Len(Buf) - 2} : n >= 0 => ~ListOf(SubSeq(Buf, 1, n)).ok
\* another short list header never describes the same fields
Header == Len(pad) = 2 => \A b \in 12..15, d \in 0..15 :
  (b # Buf[1] \/ d # Buf[2]) =>
    LET L == ListOf(<<b, d>> \o Tail(Tail(Buf)) \o pad) IN L.ok /\ L.canon => [i \in 1..Len(L.items) |-> Whole(<<b, d>> \o Tail(Tail(Buf)) \o pad, L.items[i])] # [i \in 1..Len(fs) |-> NibblesOf(fs[i])]
=============================================================================

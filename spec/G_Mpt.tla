------------------------------- MODULE G_Mpt --------------------------------
(* The attack scenarios of the trie circuits: a path shape (B a branch, a   *)
(* digit an extension of that many nibbles), a check that is attacked (see  *)
(* MC_Mpt) and the layer where it happens.  One scenario per combination    *)
(* that makes sense for the shape.                                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps,    \* what an inner layer can be
          MaxInner,
          Devs,     \* the set of attacks for this property
          MaxKey    \* nibbles the inner layers may consume together

OnceOnly == {"value", "depth1", "honest", "whole", "leaf", "badflag", "extleaf", "leafshort", "leaflong", "plen", "valuenode"}
AnyLayer == {"link", "ref", "keylink", "key", "short", "depth"}                         \* 0..n
InnerLayer == {"type", "types", "badlist", "cut", "inner"}                       \* 0..n-1
ExtLayer == {"leafext", "extplen"}
Width(s) == CASE s = "B" -> 1 [] s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3 [] s = "4" -> 4
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat(Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Width(q[1]) + Sum(Tail(q))

VARIABLES shape, dev, at
vars == <<shape, dev, at>>
Shapes == {s \in UNION {[1..n -> Steps] : n \in 0..MaxInner} :
             /\ Sum(s) <= MaxKey
             /\ \A i \in 1..(Len(s) - 1) : s[i] # "B" => s[i + 1] = "B"}   \* no two extensions in a row
IsExt(s, i) == i < Len(s) /\ s[i + 1] # "B"
Fits(s, d, i) ==
  CASE d \in {"honest0"} -> FALSE
    [] d \in OnceOnly -> i = 0
    [] d = "start" -> i = 0
    [] d \in AnyLayer -> i \in 0..Len(s) /\ (d = "depth" => i <= 4)
    [] d \in InnerLayer -> i < Len(s)
    [] d \in ExtLayer -> IsExt(s, i)
    [] d = "skip" -> i < Len(s)
    [] d = "repeat" -> i < Len(s) /\ Sum(SubSeq(s, 1, i + 1)) > 1
    \* absence
    [] d \in {"habsent", "nonzero"} -> i \in 0..Len(s)
    [] d = "present" -> i < Len(s)
    [] d = "shift" -> i < Len(s) /\ \A j \in 1..Len(s) : s[j] = "B"
    [] d = "astart" -> i \in 0..Len(s)
    [] d = "otherleaf" -> i < Len(s)
    [] d = "broken" -> i < Len(s)
    [] OTHER -> FALSE
Init == /\ shape \in Shapes /\ dev \in Devs /\ at \in 0..MaxInner
        /\ Len(shape) = 0 => dev \in {"value", "depth1", "honest", "whole", "habsent", "nonzero", "astart", "leafshort", "leaflong", "badflag", "extleaf", "plen", "valuenode", "key", "ref"}
        /\ Fits(shape, dev, at)
Next == FALSE /\ UNCHANGED vars
Emit == PrintT(ToJson([shape |-> Cat(shape), dev |-> dev, at |-> at]))
=============================================================================

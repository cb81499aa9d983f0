------------------------------- MODULE MC_Trie -------------------------------
(* Building a trie and walking one are two separate specifications; here    *)
(* every trie over a few keys (and the tries of lists) is built, and        *)
(* walking its nodes must find exactly the entries it was built of, by the  *)
(* nodes the path names.                                                    *)
EXTENDS Trie, Mpt
CONSTANTS MaxKeys, Sizes
K == {<<a, b, c, d>> : a \in 0..1, b \in 0..1, c \in 0..1, d \in 0..1}
Code(k) == 8 * k[1] + 4 * k[2] + 2 * k[3] + k[4]
ValueOf(n) == [i \in 1..40 |-> (n * 7 + i) % 256]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
VARIABLES set, list, at
Init == /\ at = 0 /\ \/ list = 0 /\ set \in {{x} : x \in K}
                     \/ list \in Sizes /\ set = {}
Next == \/ list = 0 /\ Cardinality(set) < MaxKeys /\ \E x \in K : (\A y \in set : Code(x) > Code(y)) /\ set' = set \cup {x} /\ UNCHANGED <<list, at>>
        \/ list > 0 /\ at = 0 /\ at' \in {1, 2, 128, 129, 256, 257, list, list + 1, list - 1} \ {0} /\ UNCHANGED <<list, set>>
Nodes(t) == LET q == AllNodes(t) IN IF q = <<>> THEN <<t.enc>> ELSE q
Db(t) == TLCEval([i \in 1..Len(Nodes(t)) |-> NibblesOf(Nodes(t)[i])])
Found(t, key, want) ==
  LET db == Db(t) hs == TLCEval(HashAll(db)) w == Walk(db, hs, NibblesOf(RootHash(t)), key) IN
  IF want = <<>> THEN w.res = "absent"
  ELSE /\ w.res = "value" /\ w.val = NibblesOf(want)
       /\ Path(t, key) = [i \in 1..Len(w.path) |-> BytesOf(db[w.path[i].i])]
Sets == list = 0 => LET t == TLCEval(Build([i \in 1..Cardinality(set) |-> LET x == SeqOf(set)[i] IN [k |-> x, v |-> ValueOf(Code(x))]])) IN
  \A x \in K : Found(t, x, IF x \in set THEN ValueOf(Code(x)) ELSE <<>>)
Lists == at > 0 => LET t == TLCEval(OfList([i \in 1..list |-> ValueOf(i - 1)])) IN
  Found(t, ListKey(at - 1), IF at <= list THEN ValueOf(at - 1) ELSE <<>>)
=============================================================================

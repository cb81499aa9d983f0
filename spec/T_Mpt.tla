------------------------------- MODULE T_Mpt -------------------------------
(* Sessions of the trie inclusion circuits against the trie semantics.      *)
(*  fixed: CheckMPTInclusionFixedKeyLength, index: the index variant.       *)
(* A session carries a database of nodes.  Sound: what is accepted is what  *)
(* the trie with that root holds.  Complete: an honest layout (the spec     *)
(* verifies that it is one) must be accepted.                               *)
EXTENDS TraceBase, Mpt

MyStart(t) == IF "db" \in DOMAIN t THEN HashAll(t.db) ELSE <<>>

Nibbles(q) == \A i \in 1..Len(q) : q[i] \in 0..15
WalkOf(t, hs, e) == IF Nibbles(e.key) THEN Walk(t.db, hs, e.root, e.key) ELSE [res |-> "stuck", val |-> <<>>, path |-> <<>>]
Accepted(e) == e.acc = 1 /\ e.out = 1
\* an empty string, and nothing after it in the room of a storage value
ZeroValue(v) == v[1] = 8 /\ \A i \in 2..66 : v[i] = 0
Claim(w, e) ==
  \/ w.res = "value" /\ Len(w.val) <= Len(e.val) /\ e.vl = Len(w.val) /\ SubSeq(e.val, 1, Len(w.val)) = w.val
  \/ w.res = "absent" /\ ZeroValue(e.val)

\* the layout of an honest proof: path, starts, kinds and flag lengths
HonestPath(p, e) ==
  /\ Len(p) = e.depth /\ e.depth <= e.maxd
  /\ \A i \in 1..Len(p) : /\ e.path[i] + 1 = p[i].i
                          /\ e.starts[i] = p[i].start
                          /\ i < Len(p) => e.types[i] = p[i].type
                          /\ p[i].type # 0 => p[i].plen = IF i = Len(p) THEN e.lastp ELSE e.plens[i]

HonestFixed(w, e) ==
  /\ HonestPath(w.path, e)
  /\ \/ w.res = "value" /\ SubSeq(e.val, 1, Len(w.val)) = w.val
     \/ w.res = "absent" /\ ZeroValue(e.val) /\ e.storage = 1

FixedOk(w, e) ==
  /\ Accepted(e) => Claim(w, e)
  /\ e.honest = 1 => HonestFixed(w, e) /\ Accepted(e) /\ (w.res = "value" => e.vl = Len(w.val))

\* ---- index variant: what references does the trie hold along the key? ----
RECURSIVE Reach(_, _, _, _, _)
Reach(db, hs, h, key, pos) ==
  {[pos |-> pos, ref |-> h]} \cup
  LET i == Find(hs, h) IN
  IF i = 0 THEN {}
  ELSE LET k == Look(db[i], Drop(key, pos))
       IN IF k.k = "ref" /\ k.use > 0 THEN Reach(db, hs, k.ref, key, pos + k.use) ELSE {}
KeyOf(e) == IF e.klen \in 0..Len(e.key) THEN SubSeq(e.key, 1, e.klen) ELSE e.key
Reached(t, hs, e) == IF Nibbles(e.key) THEN Reach(t.db, hs, e.root, KeyOf(e), 0) ELSE {}
IndexOk(t, hs, e) ==
  LET R == Reached(t, hs, e)
      hits == {r \in R : r.ref = e.leaf /\ r.pos < e.klen}
  IN /\ Accepted(e) => hits # {}
     /\ e.honest = 1 => Accepted(e)
                        /\ \E r \in hits : r.pos = e.starts[e.depth]
                        /\ \A i \in 1..(e.depth - 1) : LET n == Look(t.db[e.path[i] + 1], Drop(e.key, e.starts[i]))
                                                       IN n.k = "ref" /\ n.type = e.types[i] /\ e.starts[i] + n.use = e.starts[i + 1]

MyPost(t, hs, e) == IF e.op = "panic" THEN {} ELSE Ok(IF e.op = "fixed" THEN FixedOk(WalkOf(t, hs, e), e) ELSE IndexOk(t, hs, e), hs)
MyExpect(t, hs, e) ==
  IF e.op = "panic" THEN <<>> ELSE IF e.op = "fixed"
  THEN LET w == WalkOf(t, hs, e) IN [res |-> w.res, vallen |-> Len(w.val), path |-> w.path, honestLayout |-> HonestFixed(w, e), acc |-> e.acc, out |-> e.out, note |-> e.note]
  ELSE [reached |-> {r.pos : r \in Reached(t, hs, e)}, acc |-> e.acc, out |-> e.out, note |-> e.note]
=============================================================================

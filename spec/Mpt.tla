-------------------------------- MODULE Mpt ---------------------------------
(* Merkle Patricia tries as a set of nodes addressed by their Keccak hash.   *)
(* Walk follows a key from a root through a database of nodes (nibble        *)
(* sequences) and says what the trie holds there.                            *)
EXTENDS RlpWalk, Keccak, Rlp

BytesOf(n) == [i \in 1..(Len(n) \div 2) |-> 16 * n[2 * i - 1] + n[2 * i]]
NodeHash(n) == NibblesOf(Keccak256(BytesOf(n)))
HashAll(db) == [i \in 1..Len(db) |-> NodeHash(db[i])]
Find(hs, h) == LET S == {i \in 1..Len(hs) : hs[i] = h} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

Drop(q, n) == SubSeq(q, n + 1, Len(q))
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* hex-prefix: [ok, leaf, odd, frag]
HP(n) == IF Len(n) < 2 \/ n[1] > 3 \/ (n[1] % 2 = 0 /\ n[2] # 0)
         THEN [ok |-> FALSE, leaf |-> FALSE, plen |-> 0, frag |-> <<>>]
         ELSE LET odd == n[1] % 2 = 1 IN
              [ok |-> TRUE, leaf |-> n[1] >= 2, plen |-> IF odd THEN 1 ELSE 2, frag |-> Drop(n, IF odd THEN 1 ELSE 2)]

\* what a node says about the rest of a key
StuckAt == [k |-> "stuck", ref |-> <<>>, use |-> 0, type |-> 0, plen |-> 0]
Look(n, rest) ==
  LET L == ListOf(n) IN
  IF ~L.ok THEN StuckAt
  ELSE IF Len(L.items) = 17
  THEN IF rest = <<>>
       THEN LET v == Payload(n, L.items[17]) IN [k |-> IF v = <<>> THEN "absent" ELSE "value", ref |-> v, use |-> 0, type |-> 0, plen |-> 0]
       ELSE LET it == L.items[rest[1] + 1]  p == Payload(n, it) IN
            IF p = <<>> /\ ~it.list THEN [k |-> "absent", ref |-> <<>>, use |-> 0, type |-> 0, plen |-> 0]
            ELSE IF Len(p) = 64 /\ ~it.list THEN [k |-> "ref", ref |-> p, use |-> 1, type |-> 0, plen |-> 0]
            ELSE StuckAt
  ELSE IF Len(L.items) = 2 /\ ~L.items[1].list
  THEN LET h == HP(Payload(n, L.items[1]))  p == Payload(n, L.items[2]) IN
       IF ~h.ok THEN StuckAt
       ELSE IF h.leaf
       THEN IF h.frag = rest THEN [k |-> "value", ref |-> p, use |-> Len(rest), type |-> 2, plen |-> h.plen]
            ELSE [k |-> "absent", ref |-> <<>>, use |-> 0, type |-> 2, plen |-> h.plen]
       ELSE IF IsPrefix(h.frag, rest)
       THEN IF Len(p) = 64 THEN [k |-> "ref", ref |-> p, use |-> Len(h.frag), type |-> 1, plen |-> h.plen] ELSE StuckAt
       ELSE [k |-> "absent", ref |-> <<>>, use |-> 0, type |-> 1, plen |-> h.plen]
  ELSE StuckAt

RECURSIVE WalkFrom(_, _, _, _, _)
\* the outcome and the nodes visited (index, first nibble, kind, flag length)
WalkFrom(db, hs, h, key, pos) ==
  LET i == Find(hs, h) IN
  IF i = 0 THEN [res |-> "stuck", val |-> <<>>, path |-> <<>>]
  ELSE LET k == Look(db[i], Drop(key, pos))
           me == [i |-> i, start |-> pos, type |-> k.type, plen |-> k.plen]
       IN IF k.k # "ref" THEN [res |-> k.k, val |-> k.ref, path |-> <<me>>]
          ELSE LET r == WalkFrom(db, hs, k.ref, key, pos + k.use) IN [r EXCEPT !.path = <<me>> \o @]
Walk(db, hs, root, key) == WalkFrom(db, hs, root, key, 0)
=============================================================================

-------------------------------- MODULE Trie --------------------------------
(* The Merkle Patricia trie that holds a list of entries [k |-> nibbles,    *)
(* v |-> bytes] (no key is a prefix of another): its nodes, its root and    *)
(* the nodes on the way to a key.                                           *)
EXTENDS Rlp, Keccak, FiniteSets

Rest(q, n) == SubSeq(q, n + 1, Len(q))
HexPrefix(n, leaf) == LET f == IF leaf THEN 2 ELSE 0 IN
  IF Len(n) % 2 = 1
  THEN [i \in 1..((Len(n) + 1) \div 2) |-> IF i = 1 THEN 16 * (f + 1) + n[1] ELSE 16 * n[2 * i - 2] + n[2 * i - 1]]
  ELSE <<16 * f>> \o [i \in 1..(Len(n) \div 2) |-> 16 * n[2 * i - 1] + n[2 * i]]
RECURSIVE Common(_, _, _)
\* nibbles all the keys share from position d (0-based) on
Common(S, d, n) ==
  IF \A i \in 1..Len(S) : Len(S[i].k) > d + n /\ S[i].k[d + n + 1] = S[1].k[d + n + 1] THEN Common(S, d, n + 1) ELSE n
Under(S, d, x) == SelectSeq(S, LAMBDA e : e.k[d + 1] = x)
RECURSIVE Node(_, _)
\* a node: its encoding, how many nibbles of the key it takes, its subtrees
RefTo(n) == IF Len(n.enc) < 32 THEN n.enc ELSE RlpStr(n.hash)
Mk(enc, use, kids, leaf) == [enc |-> enc, hash |-> IF Len(enc) < 32 THEN <<>> ELSE Keccak256(enc), use |-> use, kids |-> kids, leaf |-> leaf]
Node(S, d) ==
  IF Len(S) = 1
  THEN TLCEval(Mk(RlpList(<<RlpStr(HexPrefix(Rest(S[1].k, d), TRUE)), RlpStr(S[1].v)>>), Len(S[1].k) - d, <<>>, TRUE))
  ELSE LET n == Common(S, d, 0) IN
       IF n > 0
       THEN LET c == Node(S, d + n) IN
            TLCEval(Mk(RlpList(<<RlpStr(HexPrefix(SubSeq(S[1].k, d + 1, d + n), FALSE)), RefTo(c)>>), n, <<c>>, FALSE))
       ELSE LET kids == TLCEval([x \in 1..16 |-> LET U == Under(S, d, x - 1) IN IF U = <<>> THEN <<>> ELSE <<Node(U, d + 1)>>]) IN
            TLCEval(Mk(RlpList([x \in 1..16 |-> IF kids[x] = <<>> THEN RlpStr(<<>>) ELSE RefTo(kids[x][1])] \o <<RlpStr(<<>>)>>), 1, kids, FALSE))
EmptyTrie == RlpStr(<<>>)
Build(S) == IF S = <<>> THEN Mk(EmptyTrie, 0, <<>>, FALSE) ELSE Node(S, 0)
RootHash(t) == Keccak256(t.enc)
RECURSIVE PathFrom(_, _, _, _)
PathFrom(t, key, d, top) ==
  (IF top \/ Len(t.enc) >= 32 THEN <<t.enc>> ELSE <<>>) \o
  (IF t.leaf \/ t.kids = <<>> THEN <<>>
   ELSE IF Len(t.kids) = 1 THEN PathFrom(t.kids[1], key, d + t.use, FALSE)
   ELSE IF t.kids[key[d + 1] + 1] = <<>> THEN <<>> ELSE PathFrom(t.kids[key[d + 1] + 1][1], key, d + 1, FALSE))
\* for a key the trie holds
Path(t, key) == PathFrom(t, key, 0, TRUE)
\* all nodes with a hash of their own
RECURSIVE AllNodes(_)
AllNodes(t) == LET RECURSIVE F(_)
                   F(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q) = <<>> THEN <<>> ELSE AllNodes(Head(q)[1])) \o F(Tail(q))
               IN (IF Len(t.enc) >= 32 THEN <<t.enc>> ELSE <<>>) \o
                  (IF t.kids = <<>> THEN <<>> ELSE IF Len(t.kids) = 1 THEN AllNodes(t.kids[1]) ELSE F(t.kids))
\* the trie of a list: entry i (from 0) under the encoding of i
ListKey(i) == NibblesOf(RlpNat(i))
OfList(q) == Build([i \in 1..Len(q) |-> [k |-> ListKey(i - 1), v |-> q[i]]])
=============================================================================

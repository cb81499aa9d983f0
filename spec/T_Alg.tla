-------------------------------- MODULE T_Alg --------------------------------
(* Sessions of the Merkle gadgets (C14), the sparse Merkle gadget (C15) and   *)
(* the emulated MiMC hasher (C16).                                            *)
EXTENDS TraceBase, Mimc
MHash(H, a, b) == Mimc(H, <<a, b>>)
KHash(H, a, b) == Keccak256(a \o b)
MT == INSTANCE Merkle WITH Hash <- MHash
KT == INSTANCE Merkle WITH Hash <- KHash

MyStart(t) == IF "curve" \in DOMAIN t THEN [H |-> Hasher(t.curve), q |-> Fresh] ELSE [H |-> <<>>, q |-> Fresh]
\* sides as recorded: digits; anything but 0 and 1 is no side
IsSide(d) == d \in {<<>>, <<1>>}
SideOf(d) == IF d = <<>> THEN 0 ELSE 1
Sides(q, n) == [i \in 1..n |-> SideOf(q[i])]
Mods(H, q) == [i \in 1..Len(q) |-> Mod(q[i], H.p)]
SidesFit(e, q, sibs) == Len(q) >= Len(sibs) /\ \A i \in 1..Len(sibs) : IsSide(q[i])

\* the root from a leaf
PathE(H, e) ==
  IF ~SidesFit(e, e.sides, e.sibs) THEN e.acc = 0
  ELSE /\ e.acc = 1
       /\ e.out = MT!PathRoot(H, IF e.hashed = 1 THEN Mimc(H, <<e.leaf>>) ELSE Mod(e.leaf, H.p), Sides(e.sides, Len(e.sibs)), Mods(H, e.sibs))
\* two values in the order the index says
PairE(H, e) == IF ~IsSide(e.sides[1]) THEN e.acc = 0
               ELSE e.acc = 1 /\ e.out = MT!PathRoot(H, e.leaf, Sides(e.sides, 1), e.sibs)
RootE(H, e) == IF ~MT!IsPow2(Len(e.leaves)) THEN e.acc = 0
               ELSE e.acc = 1 /\ e.out = MT!RootOf(H, Mods(H, e.leaves))
\* side 1 of the emulated variant: the node is the right child
RestoreE(H, e) == IF Len(e.sides) # Len(e.sibs) \/ ~SidesFit(e, e.sides, e.sibs) THEN e.acc = 0
                  ELSE e.acc = 1 /\ e.out = MT!PathRoot(H, Mod(e.leaf, H.p), Sides(e.sides, Len(e.sibs)), Mods(H, e.sibs))
KRootE(e) == IF ~KT!IsPow2(Len(e.leaves)) THEN e.acc = 0 ELSE e.acc = 1 /\ e.out = KT!RootOf(0, e.leaves)

\* the leaf value is the root of a small tree of its own; both trees hash their leaf
LeafValue(H, e) == MT!PathRoot(H, Mimc(H, <<e.tree[1]>>), Sides(e.tsides, Len(e.tree) - 1), Tail(e.tree))
SmtRoot(H, e) == MT!PathRoot(H, Mimc(H, <<LeafValue(H, e)>>), Sides(e.sides, Len(e.sibs)), e.sibs)
SmtE(H, e) ==
  IF Len(e.tsides) # Len(e.tree) - 1 \/ ~SidesFit(e, e.tsides, Tail(e.tree)) \/ ~SidesFit(e, e.sides, e.sibs) THEN e.acc = 0
  ELSE /\ e.acc = 1 /\ e.leafv = LeafValue(H, e)
       /\ e.out = IF e.root = SmtRoot(H, e) THEN 1 ELSE 0
       /\ e.honest = 1 => e.out = 1

MyPost(t, s0, e) ==
  CASE e.op = "path" -> Ok(PathE(s0.H, e), s0)
    [] e.op = "pair" -> Ok(PairE(s0.H, e), s0)
    [] e.op = "root" -> Ok(RootE(s0.H, e), s0)
    [] e.op = "restore" -> Ok(RestoreE(s0.H, e), s0)
    [] e.op = "kroot" -> Ok(KRootE(e), s0)
    [] e.op = "smt" -> Ok(SmtE(s0.H, e), s0)
    \* the hasher as a state machine
    [] e.op = "write" -> {[s0 EXCEPT !.q = DoWrite(@, e.xs)]}
    [] e.op = "reset" -> {[s0 EXCEPT !.q = Fresh]}
    [] e.op = "sum" -> LET q2 == DoSum(s0.H, s0.q) IN Ok(e.acc = 1 /\ e.out = q2.h, [s0 EXCEPT !.q = q2])
    [] e.op = "hash" -> LET q2 == DoSum(s0.H, DoWrite(Fresh, e.xs)) IN Ok(e.acc = 1 /\ e.out = q2.h, [s0 EXCEPT !.q = q2])
    [] OTHER -> {}
MyExpect(t, s0, e) ==
  CASE e.op = "sum" -> [out |-> DoSum(s0.H, s0.q).h, got |-> e.out]
    [] e.op = "hash" -> [out |-> DoSum(s0.H, DoWrite(Fresh, e.xs)).h, got |-> e.out]
    [] e.op = "smt" -> IF e.acc = 1 THEN [leafv |-> LeafValue(s0.H, e), root |-> SmtRoot(s0.H, e)] ELSE [leafv |-> <<>>, root |-> <<>>]
    [] OTHER -> [acc |-> e.acc, op |-> e.op]
=============================================================================

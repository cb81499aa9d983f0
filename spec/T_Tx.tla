-------------------------------- MODULE T_Tx --------------------------------
(* Sessions of signer recovery (C23) and of proof generation (C24).         *)
EXTENDS TraceBase, Tx, Trie
K1 == TLCEval(Secp256k1)
Half == TLCEval(Div(K1.n, <<2>>))
MyStart(t) == IF "entries" \in DOMAIN t THEN [tree |-> TLCEval(OfList(t.entries)), n |-> Len(t.entries)] ELSE [tree |-> <<>>, n |-> 0]

\* ---- C23 ----
\* the unsigned encoding of a supported transaction; others are refused
UnsignedE(e) == IF e.tx.type \notin {0, 2} THEN e.acc = 0
                ELSE e.acc = 1 /\ (Supported(e.tx) => e.out = Unsigned(e.tx))
\* a signature of the upper half is somebody's, but may be refused; so may the
\* two parities that no transaction has
Doubtful(t) == Lt(Half, t.s) \/ Len(Parity(t)) > 1 \/ (Parity(t) # <<>> /\ Parity(t)[1] > 1)
SignerE(e) ==
  IF ~Supported(e.tx) THEN e.acc = 0
  ELSE LET P == TLCEval(Signer(K1, e.tx)) IN
       IF e.acc = 0 THEN P = Infinity \/ Doubtful(e.tx)
       ELSE /\ P # Infinity /\ e.out = AddressOf(P)
            /\ e.honest = 1 => P = PMul(K1, e.d, K1.g)
            /\ e.altered = 1 => P # PMul(K1, e.d, K1.g)

\* ---- C24 ----
EntryE(t, e) == e.acc = 1 /\ e.out = t.entries[e.i + 1] /\ e.out = (IF e.kind = "tx" THEN Encoded(e.v) ELSE ReceiptOf(e.v))
ProofE(t, m, e) ==
  IF e.i < 0 \/ e.i >= m.n \/ e.root # RootHash(m.tree) THEN e.acc = 0
  ELSE LET p == TLCEval(Path(m.tree, ListKey(e.i))) v == t.entries[e.i + 1] IN
       /\ e.acc = 1 /\ e.nodes = p /\ e.key = RlpNat(e.i)
       /\ e.prefix \o v = p[Len(p)]

MyPost(t, s0, e) ==
  CASE e.op = "unsigned" -> Ok(UnsignedE(e), s0)
    [] e.op = "signer" -> Ok(SignerE(e), s0)
    [] e.op = "entry" -> Ok(EntryE(t, e), s0)
    [] e.op = "proof" -> Ok(ProofE(t, s0, e), s0)
    [] e.op = "refused" -> Ok(e.acc = 0, s0)
    [] OTHER -> {}
MyExpect(t, s0, e) ==
  CASE e.op = "unsigned" /\ Supported(e.tx) -> [want |-> Unsigned(e.tx), got |-> e.out]
    [] e.op = "signer" -> LET P == Signer(K1, e.tx) IN [want |-> IF P = Infinity THEN <<>> ELSE AddressOf(P), got |-> e.out]
    [] OTHER -> [op |-> e.op]
=============================================================================

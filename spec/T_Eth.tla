-------------------------------- MODULE T_Eth --------------------------------
(* Sessions of the account, storage, header and combined storage gadgets   *)
(* (C12) against the tries and the header they speak about.                *)
EXTENDS TraceBase, Mpt

MyStart(t) == IF "db" \in DOMAIN t THEN HashAll(t.db) ELSE <<>>
Accepted(e) == e.acc = 1 /\ e.out = 1
Nibbles(q) == \A i \in 1..Len(q) : q[i] \in 0..15
W(t, hs, root, key) == IF Nibbles(key) THEN Walk(t.db, hs, root, key) ELSE [res |-> "stuck", val |-> <<>>, path |-> <<>>]
PadR(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE 0]
PadL(q, n) == [i \in 1..n |-> IF i <= n - Len(q) THEN 0 ELSE q[i - (n - Len(q))]]
One(q, i) == Len(q) >= i

\* ---- accounts ----
AccFields(val) ==
  LET L == ListOf(val) IN
  IF L.ok /\ Len(L.items) = 4 /\ L.total = Len(val)
  THEN [ok |-> TRUE, f |-> [i \in 1..4 |-> Payload(val, L.items[i])]] ELSE [ok |-> FALSE, f |-> <<>>]
AccFits(a) == a.ok /\ Len(a.f[1]) <= 64 /\ Len(a.f[2]) <= 24 /\ Len(a.f[3]) = 64 /\ Len(a.f[4]) = 64
AccReport(a, e) == /\ e.nl = Len(a.f[1]) /\ e.nonce = PadR(a.f[1], 64)
                   /\ e.bl = Len(a.f[2]) /\ e.balance = PadR(a.f[2], 24)
                   /\ e.sr = a.f[3] /\ e.ch = a.f[4]
\* fields are reported left-aligned; what follows a short one is not part of it
\* a balance longer than the gadget's 24 nibbles is shown with its true length
Cut(q, n) == IF Len(q) > n THEN SubSeq(q, 1, n) ELSE q
AccShown(a, e) == /\ e.nl = Len(a.f[1]) /\ SubSeq(e.nonce, 1, Len(Cut(a.f[1], 64))) = Cut(a.f[1], 64)
                  /\ e.bl = Len(a.f[2]) /\ SubSeq(e.balance, 1, Len(Cut(a.f[2], 24))) = Cut(a.f[2], 24)
                  /\ e.sr = a.f[3] /\ e.ch = a.f[4]
AccountOk(t, hs, e) ==
  LET w == W(t, hs, e.root, e.key) IN
  IF Accepted(e)
  THEN /\ w.res = "value" /\ SubSeq(e.val, 1, Len(w.val)) = w.val
       /\ AccFields(w.val).ok /\ AccShown(AccFields(w.val), e)
  ELSE ~(e.honest = 1 /\ w.res = "value" /\ AccFits(AccFields(w.val)))

\* ---- storage ----
SlotInt(w) == \* 64 nibbles of the stored number
  IF w.res = "absent" THEN PadL(<<>>, 64) ELSE LET it == ItemAt(w.val, 1) IN PadL(Payload(w.val, it), 64)
SlotFits(w) == w.res = "absent" \/ (w.res = "value" /\ Len(w.val) <= 66 /\ LET it == ItemAt(w.val, 1) IN it.ok /\ ~it.list /\ it.hdr + it.len = Len(w.val))
SlotShown(w, e) == e.lo = SubSeq(SlotInt(w), 3, 64) /\ e.hi = SubSeq(SlotInt(w), 1, 2)
StorageOk(t, hs, e) ==
  LET w == W(t, hs, e.root, e.key) IN
  IF Accepted(e)
  THEN /\ \/ w.res = "value" /\ SubSeq(e.val, 1, Len(w.val)) = w.val /\ e.vl = Len(w.val) - 2
          \/ w.res = "absent" /\ e.val = PadR(<<8>>, 66)
       /\ SlotFits(w) /\ SlotShown(w, e)
  ELSE ~(e.honest = 1 /\ w.res \in {"value", "absent"} /\ SlotFits(w))

\* ---- headers ----
HMin == <<64, 64, 40, 64, 64, 64, 512, 0, 0, 0, 0, 0, 0, 64, 16, 0, 64>>
HMax == <<64, 64, 40, 64, 64, 64, 512, 14, 16, 8, 8, 8, 2000, 64, 18, 16, 64>>
HFits(rlp, nf) == LET L == ListOf(rlp) IN
  /\ L.ok /\ Len(L.items) = (IF nf > 17 THEN 17 ELSE nf) /\ nf >= 0 /\ L.total <= 8 * 272
  /\ \A i \in 1..Len(L.items) : Len(Payload(rlp, L.items[i])) \in HMin[i]..HMax[i]
Item(rlp, L, i) == Payload(rlp, L.items[i])
HashOf(rlp, round) == NibblesOf(Keccak256Padded(BytesOf(SubSeq(rlp, 1, 272 * (round + 1))), round + 1))
HeaderOk(e) ==
  LET L == ListOf(e.rlp) IN
  /\ e.acc = 1 => e.hash = HashOf(e.rlp, e.round)
  /\ Accepted(e) => /\ HFits(e.rlp, e.nf)
                    /\ e.nl = Len(Item(e.rlp, L, 9)) /\ SubSeq(e.num, 1, IF e.nl > 8 THEN 8 ELSE e.nl) = SubSeq(Item(e.rlp, L, 9), 1, IF e.nl > 8 THEN 8 ELSE e.nl)
                    /\ SubSeq(e.time, 1, Len(Item(e.rlp, L, 12))) = Item(e.rlp, L, 12)
                    /\ e.sr = Item(e.rlp, L, 4) /\ e.tr = Item(e.rlp, L, 5) /\ e.rr = Item(e.rlp, L, 6)
  /\ e.honest = 1 => /\ e.rlp = PadR(NibblesOf(Pad(BytesOf(e.raw))), 2176)
                     /\ HFits(e.rlp, e.nf) => Accepted(e) /\ e.hash = NodeHash(e.raw)

\* ---- the three together ----
\* headers with more fields than the gadget decodes are judged by the fields it uses
UsableHeader(rlp) == LET L == ListOf(rlp) IN
  /\ L.ok /\ Len(L.items) >= 15 /\ \A i \in 1..15 : Len(Item(rlp, L, i)) \in HMin[i]..HMax[i]
  /\ Len(Item(rlp, L, 9)) <= 8
FullOk(t, hs, e) ==
  IF ~(e.acc = 1 /\ e.round \in 0..7) THEN ~(e.honest = 1 /\ UsableHeader(e.rlp))
  ELSE
  LET L == ListOf(e.rlp)
      wa == W(t, hs, Item(e.rlp, L, 4), e.addr)
      a == AccFields(wa.val)
      ws == W(t, hs, a.f[3], e.slot)
  IN IF ~UsableHeader(e.rlp) THEN TRUE
     ELSE IF e.out = 1
     THEN /\ e.hash = HashOf(e.rlp, e.round)
          /\ wa.res = "value" /\ a.ok /\ Len(a.f[3]) = 64
          /\ ws.res \in {"value", "absent"} /\ SlotFits(ws) /\ SlotShown(ws, e)
          /\ e.number = PadL(Item(e.rlp, L, 9), 8)
     ELSE ~(e.honest = 1)

Judge(t, hs, e) == CASE e.op = "account" -> AccountOk(t, hs, e)
                     [] e.op = "storage" -> StorageOk(t, hs, e)
                     [] e.op = "header" -> HeaderOk(e)
                     [] e.op = "full" -> FullOk(t, hs, e)
                     [] OTHER -> FALSE
MyPost(t, hs, e) == Ok(Judge(t, hs, e), hs)
MyExpect(t, hs, e) ==
  CASE e.op \in {"account", "storage"} -> LET w == W(t, hs, e.root, e.key) IN [res |-> w.res, val |-> w.val, acc |-> e.acc, out |-> e.out]
    [] e.op = "header" -> LET L == ListOf(e.rlp) IN [ok |-> L.ok, n |-> Len(L.items), fits |-> HFits(e.rlp, e.nf), acc |-> e.acc, out |-> e.out]
    [] e.op = "full" -> [usable |-> UsableHeader(e.rlp), acc |-> e.acc, out |-> e.out]
    [] OTHER -> <<>>
=============================================================================

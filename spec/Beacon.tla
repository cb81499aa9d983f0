-------------------------------- MODULE Beacon --------------------------------
(* Lookups of a slot by a block and of a block by a slot.  The chain grows   *)
(* and becomes final; slots may be empty; the service answers a request with *)
(* what the chain is at that time, or with an answer of any other shape, or  *)
(* not at all.  What a lookup gives is the chain's, or nothing (zero, not    *)
(* final).  Faults of the client, each refuted: "status" (an answer that is  *)
(* not a success is read all the same), "cut" (a part of an answer is read), *)
(* "anychain" (chains the service does not know are asked about).            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Fault, MaxSlot
Ops == {"slot", "block"}
Chains == {1, 5, 56, 97, 0, 137}
Served == {1, 5}
SameNumber == {56, 97}
Nets == {"ok", "down", "cut", "404", "500", "429", "204"}
Datas == {"there", "more", "empty", "null", "other", "missing", "text"}
Poss == {"there", "null", "other", "partial", "missing"}
VARIABLES slotOf,    \* block -> slot; blocks are 1..Len(slotOf)
          final,     \* blocks up to this one are final
          ask, out, sc, reqs
vars == <<slotOf, final, ask, out, sc, reqs>>
None == [v |-> 0, fin |-> FALSE]
NoSc == [op |-> "none", chain |-> 0, net |-> "ok", data |-> "there", pos |-> "there"]
Init == slotOf = <<>> /\ final = 0 /\ ask = 0 /\ out = None /\ sc = NoSc /\ reqs = 0
Tip == IF slotOf = <<>> THEN 0 ELSE slotOf[Len(slotOf)]
Grow == \E n \in (Tip + 1)..MaxSlot : slotOf' = Append(slotOf, n) /\ UNCHANGED <<final, ask, out, sc, reqs>>
Finalize == final < Len(slotOf) /\ final' = final + 1 /\ UNCHANGED <<slotOf, ask, out, sc, reqs>>
BlockAt(n) == {b \in 1..Len(slotOf) : slotOf[b] = n}
\* what the chain says: found or not, the number, finality
Truth(op, a) == IF op = "slot" THEN IF a \in 1..Len(slotOf) THEN [v |-> slotOf[a], fin |-> a <= final] ELSE None
                ELSE IF BlockAt(a) # {} THEN [v |-> CHOOSE b \in BlockAt(a) : TRUE, fin |-> FALSE] ELSE None
DataFits(op, d) == d = "there" \/ (op = "slot" /\ d = "more")
\* a body that is not an answer to the question may hold anything
Read(op, a, c, n, d, p) ==
  IF c \in SameNumber /\ op = "block" THEN [v |-> a, fin |-> FALSE]
  ELSE IF c \notin Served /\ Fault # "anychain" THEN None
  ELSE IF n = "down" THEN None
  ELSE IF n = "cut" THEN IF Fault = "cut" THEN [v |-> 1, fin |-> TRUE] ELSE None
  ELSE IF n # "ok" /\ Fault # "status" THEN None
  ELSE IF n # "ok" THEN [v |-> MaxSlot + 1, fin |-> TRUE]
  ELSE IF c \notin Served THEN [v |-> MaxSlot + 1, fin |-> FALSE]
  ELSE IF ~DataFits(op, d) \/ p # "there" THEN None
  ELSE Truth(op, a)
Lookup == sc = NoSc /\ \E op \in Ops, c \in Chains, n \in Nets, d \in Datas, p \in Poss, a \in 1..MaxSlot :
  /\ (n \in {"ok", "cut"} \/ (d = "there" /\ p = "there"))
  /\ (d \in {"there", "more"} \/ p = "there")
  /\ (c \in Served \/ (n = "ok" /\ d = "there" /\ p = "there"))
  /\ ask' = a /\ out' = Read(op, a, c, n, d, p)
  /\ sc' = [op |-> op, chain |-> c, net |-> n, data |-> d, pos |-> p]
  /\ reqs' = IF c \in Served \/ (Fault = "anychain" /\ ~(c \in SameNumber /\ op = "block")) THEN 1 ELSE 0
  /\ UNCHANGED <<slotOf, final>>
Next == (sc = NoSc /\ (Grow \/ Finalize)) \/ Lookup
\* what is returned is the chain's, or nothing
Sound == sc = NoSc \/ (sc.chain \in SameNumber /\ sc.op = "block" /\ out = [v |-> ask, fin |-> FALSE]) \/ out = None \/ out = Truth(sc.op, ask)
\* finality is never claimed of a block that is not final
Finality == out.fin => sc.chain \in Served /\ sc.op = "slot" /\ ask <= final
\* only the chains that are served are asked about, and nothing that fails is asked twice
Asked == reqs <= 1 /\ (sc # NoSc => (reqs = 1) = (sc.chain \in Served))
Emit == sc # NoSc /\ ask = 1 => PrintT(ToJson([op |-> sc.op, chain |-> sc.chain, net |-> sc.net, data |-> sc.data, pos |-> sc.pos, fin |-> (final > 0)]))
=============================================================================

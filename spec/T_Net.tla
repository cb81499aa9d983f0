-------------------------------- MODULE T_Net --------------------------------
(* Sessions of the network clients: lookups at the beacon explorer (C37) and *)
(* the object store (C38).                                                   *)
EXTENDS TraceBase
MyStart(t) == [objs |-> {}]
(* ----------------------------- beacon lookups ---------------------------- *)
Served(c) == c = 1 \/ c = 5
Same(c) == c = 56 \/ c = 97
Url(e) == "GET https://" \o (IF e.chain = 5 THEN "goerli." ELSE "") \o "beaconcha.in/api/v1/" \o (IF e.op = "slot" THEN "execution/block/" ELSE "slot/") \o e.ask
Found(e) == e.net = "ok" /\ e.pos = "there" /\ (e.data = "there" \/ (e.op = "slot" /\ e.data = "more"))
Beacon(e) ==
  /\ e.res = "ok"
  /\ IF e.op = "block" /\ Same(e.chain) THEN e.out = e.ask /\ e.reqs = <<>>
     ELSE IF ~Served(e.chain) THEN e.out = "0" /\ e.outFin = 0 /\ e.reqs = <<>>
     ELSE /\ e.reqs = <<Url(e)>>
          /\ IF Found(e) THEN e.out = e.n /\ e.outFin = (IF e.op = "slot" THEN e.fin ELSE 0)
             ELSE e.out = "0" /\ e.outFin = 0
(* ------------------------------ object store ----------------------------- *)
\* the store is a set of <<key, object>>, keys are bytes
Keys(s0) == {p[1] : p \in s0}
At(s0, k) == (CHOOSE p \in s0 : p[1] = k)[2]
Set(s0, k, o) == {p \in s0 : p[1] # k} \cup {<<k, o>>}
Starts(k, p) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Less(a, b) == \E i \in 0..Len(a) : /\ i < Len(b) /\ SubSeq(a, 1, i) = SubSeq(b, 1, i)
                                   /\ (i = Len(a) \/ (i < Len(a) /\ a[i + 1] < b[i + 1]))
Listed(t, s0, e) ==
  /\ e.res = "ok"
  /\ Len(e.keys) = Len(e.szs)
  /\ {e.keys[i] : i \in 1..Len(e.keys)} = {k \in Keys(s0) : Starts(k, e.k)}
  /\ \A i \in 1..(Len(e.keys) - 1) : Less(e.keys[i], e.keys[i + 1])
  /\ \A i \in 1..Len(e.keys) : e.szs[i] = t.sizes[At(s0, e.keys[i])]
Bucket(t, s0, e) ==
  CASE e.op = "up" -> IF e.fault \in {"deny", "source"} THEN Ok(e.res = "err", s0)
                      ELSE Ok(e.res = "ok", Set(s0, e.k, e.o))
    [] e.op = "del" -> IF e.fault = "deny" THEN Ok(e.res = "err", s0)
                       ELSE Ok(e.res = "ok", {p \in s0 : p[1] # e.k})
    [] e.op = "head" -> Ok(e.res = (IF e.k \in Keys(s0) /\ e.fault # "deny" THEN "ok" ELSE "err"), s0)
    [] e.op = "down" -> Ok(IF e.k \in Keys(s0) /\ e.fault \notin {"deny", "cut"} THEN e.res = "ok" /\ e.out = At(s0, e.k) ELSE e.res = "err", s0)
    [] e.op = "list" -> Ok(IF e.fault = "deny" THEN e.res = "err" ELSE Listed(t, s0, e), s0)
MyPost(t, st0, e) ==
  CASE e.op \in {"slot", "block"} -> Ok(Beacon(e), st0)
    [] e.op \in {"up", "del", "head", "down", "list"} -> {[objs |-> x] : x \in Bucket(t, st0.objs, e)}
    \* an object's name: the prefix, a slash, the slot in decimal, ".json"
    [] e.op = "key" -> Ok(e.key = e.p \o <<47>> \o e.n \o <<46, 106, 115, 111, 110>>, st0)
    [] OTHER -> {}
MyExpect(t, st0, e) == [state |-> st0]
=============================================================================

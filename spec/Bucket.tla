-------------------------------- MODULE Bucket --------------------------------
(* The client of an object store: uploads, downloads, deletions, lookups and *)
(* listings against a store that answers at most Page names at a time, may   *)
(* refuse a request (deny), fail it once (once), or break off an answer      *)
(* (cut).  A listing is made of several requests.  Emit prints histories for *)
(* replay.  Faults of the client, each refuted: "onepage" (a listing stops   *)
(* after its first answer), "again" (a page is asked for from the same name),*)
(* "partial" (a body that broke off is taken as the object), "quiet" (a      *)
(* refused upload is reported as done), "noretry".                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Page, Fault, NKeys
Keys == 1..NKeys            \* in the order of their names
Objects == {1, 2}
Prefixes == {0, 9}          \* 0: all names; 9: the keys 2 and 3
In(p) == IF p = 0 THEN Keys ELSE Keys \cap {2, 3}
VARIABLES store, pc, got, from, res, hist, want
vars == <<store, pc, got, from, res, hist, want>>
Nothing == 0
Init == store = [k \in Keys |-> Nothing] /\ pc = "idle" /\ got = <<>> /\ from = 0 /\ res = "none" /\ hist = <<>> /\ want = <<>>
Rec(op, k, o, f) == hist' = Append(hist, <<op, k, o, f>>)
Idle == pc = "idle" /\ Len(hist) < MaxLen
Up(k, o, f) ==
  /\ Idle /\ Rec("up", k, o, f) /\ UNCHANGED <<pc, from>>
  /\ got' = <<>> /\ want' = <<>>
  /\ IF f \in {"deny", "source"} \/ (f = "once" /\ Fault = "noretry")
     THEN store' = store /\ res' = IF Fault = "quiet" THEN "ok" ELSE "err"
     ELSE store' = [store EXCEPT ![k] = o] /\ res' = "ok"
Del(k, f) ==
  /\ Idle /\ Rec("del", k, 0, f) /\ UNCHANGED <<pc, from>>
  /\ got' = <<>> /\ want' = <<>>
  /\ IF f = "deny" THEN store' = store /\ res' = "err" ELSE store' = [store EXCEPT ![k] = Nothing] /\ res' = "ok"
Down(k, f) ==
  /\ Idle /\ Rec("down", k, 0, f) /\ UNCHANGED <<store, pc, from>>
  /\ want' = <<store[k]>>
  /\ IF store[k] = Nothing \/ f = "deny" \/ (f = "once" /\ Fault = "noretry") \/ (f = "cut" /\ Fault # "partial") THEN res' = "err" /\ got' = <<>>
     ELSE res' = "ok" /\ got' = <<IF f = "cut" THEN 3 ELSE store[k]>>
Look(k, f) ==
  /\ Idle /\ Rec("head", k, 0, f) /\ UNCHANGED <<store, pc, from>> /\ got' = <<>> /\ want' = <<store[k]>>
  /\ res' = IF store[k] = Nothing \/ f = "deny" THEN "err" ELSE "ok"
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Held(p) == {k \in In(p) : store[k] # Nothing}
List(p, f) ==
  /\ Idle /\ Rec("list", p, 0, f) /\ UNCHANGED store
  /\ want' = Sorted(Held(p)) /\ got' = <<>> /\ from' = 0
  /\ IF f = "deny" THEN pc' = "idle" /\ res' = "err" ELSE pc' = "list" /\ res' = "none"
\* one answer: at most Page names after `from`
Answer ==
  /\ pc = "list" /\ UNCHANGED <<store, hist, want>>
  /\ LET p == hist[Len(hist)][2]
         left == Sorted({k \in Held(p) : k > from})
         now == SubSeq(left, 1, IF Len(left) < Page THEN Len(left) ELSE Page)
         more == Len(left) > Page IN
     /\ got' = got \o now
     /\ IF more /\ Fault # "onepage" /\ Len(got) < 10
        THEN pc' = "list" /\ from' = (IF Fault = "again" THEN from ELSE now[Len(now)]) /\ res' = "none"
        ELSE pc' = "idle" /\ from' = 0 /\ res' = "ok"
Next ==
  \/ \E k \in Keys : \/ \E o \in Objects, f \in {"", "deny", "once", "source"} : Up(k, o, f)
                     \/ \E f \in {"", "deny"} : Del(k, f)
                     \/ \E f \in {"", "deny", "once", "cut"} : Down(k, f)
                     \/ \E f \in {"", "deny"} : Look(k, f)
  \/ \E p \in Prefixes, f \in {"", "deny", "once"} : List(p, f)
  \/ Answer
Last == hist[Len(hist)]
Done(op) == hist # <<>> /\ pc = "idle" /\ Last[1] = op
\* what a key holds: the last upload that was reported as done, unless deleted since
RECURSIVE HoldOf(_, _)
HoldOf(k, n) == IF n = 0 THEN Nothing
                ELSE LET h == hist[n] IN
                  IF h[2] = k /\ h[4] \notin {"deny", "source"} /\ h[1] = "up" THEN h[3]
                  ELSE IF h[2] = k /\ h[4] # "deny" /\ h[1] = "del" THEN Nothing
                  ELSE HoldOf(k, n - 1)
Hold == Done("up") \/ Done("del") => \A k \in Keys : store[k] = HoldOf(k, Len(hist))
Told == (Done("up") \/ Done("del")) => (res = "err") = (Last[4] \in {"deny", "source"})
Whole == Done("down") => (res = "ok") = (want # <<Nothing>> /\ Last[4] \notin {"deny", "cut"}) /\ (res = "ok" => got = want)
Complete == Done("list") => IF Last[4] = "deny" THEN res = "err" ELSE res = "ok" /\ got = want
Emit == Len(hist) = MaxLen /\ pc = "idle" /\ hist[MaxLen][1] \in {"list", "down", "head"} /\ hist[1][1] = "up"
        => PrintT(ToJson([h |-> [i \in 1..MaxLen |-> <<hist[i][1], IF hist[i][1] = "list" THEN (IF hist[i][2] = 0 THEN "" ELSE "a/") ELSE "k" \o ToString(hist[i][2]), ToString(hist[i][3]), hist[i][4]>>]]))
=============================================================================

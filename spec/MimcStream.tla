----------------------------- MODULE MimcStream ------------------------------
(* The streaming hasher as a state machine over symbolic values: every        *)
(* history of writes, digests and resets.  The digest must be the fold over   *)
(* everything written since the last reset, each value absorbed once.         *)
(* Emit prints the histories that end in a digest, as scenarios.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, MaxVals, Keep      \* Keep: a faulty hasher that does not drop what it digested
VARIABLES h, data, log, hist, out
vars == <<h, data, log, hist, out>>
Absorb(x, v) == <<x, v>>
RECURSIVE Fold(_, _)
Fold(x, vs) == IF vs = <<>> THEN x ELSE Fold(Absorb(x, vs[1]), Tail(vs))
Zero == <<>>
Init == h = Zero /\ data = <<>> /\ log = <<>> /\ hist = <<>> /\ out = Zero
Fresh(n) == [i \in 1..n |-> Len(log) + i]
Write(n) == /\ Len(log) + n <= MaxVals
            /\ data' = data \o Fresh(n) /\ log' = log \o Fresh(n)
            /\ hist' = Append(hist, IF n = 1 THEN "w1" ELSE "w2") /\ UNCHANGED <<h, out>>
Sum == /\ h' = Fold(h, data) /\ data' = (IF Keep THEN data ELSE <<>>) /\ out' = Fold(h, data)
       /\ hist' = Append(hist, "s") /\ UNCHANGED log
Reset == h' = Zero /\ data' = <<>> /\ log' = <<>> /\ hist' = Append(hist, "r") /\ UNCHANGED out
Hash(n) == LET f == [i \in 1..n |-> i] IN
           /\ n <= MaxVals /\ h' = Fold(Zero, f) /\ out' = h' /\ data' = <<>> /\ log' = f /\ hist' = Append(hist, "h")
Next == Len(hist) < MaxLen /\ (Write(1) \/ Write(2) \/ Sum \/ Reset \/ Hash(2))
Digest == hist # <<>> /\ hist[Len(hist)] \in {"s", "h"} => out = Fold(Zero, log)
Emit == (hist # <<>> /\ hist[Len(hist)] \in {"s", "h"}) => PrintT(ToJson([h |-> hist]))
=============================================================================

--------------------------- MODULE PoseidonStream ----------------------------
(* The accumulating hasher as a state machine over symbolic values: the       *)
(* digest is that of the values written since the last reset, in order, and   *)
(* asking for it changes nothing.  Writes hand over a cell that the caller    *)
(* may change afterwards.  Emit prints the histories ending in a digest.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Fault              \* Fault: "" | "drop" | "keep" | "alias"
VARIABLES pre, log, cell, hist, out
vars == <<pre, log, cell, hist, out>>
Init == pre = <<>> /\ log = <<>> /\ cell = 0 /\ hist = <<>> /\ out = <<>>
Write == /\ pre' = Append(pre, Len(hist) + 1) /\ log' = Append(log, Len(hist) + 1)
         /\ hist' = Append(hist, "w") /\ UNCHANGED <<cell, out>>
\* write the caller's cell
WriteCell == /\ pre' = Append(pre, IF Fault = "alias" THEN -1 ELSE cell) /\ log' = Append(log, cell)
             /\ hist' = Append(hist, "c") /\ UNCHANGED <<cell, out>>
\* the caller changes its cell
Change == /\ cell' = 100 + Len(hist) /\ hist' = Append(hist, "m") /\ UNCHANGED <<pre, log, out>>
Sum == /\ out' = [i \in 1..Len(pre) |-> IF Fault = "alias" /\ pre[i] = -1 THEN cell ELSE pre[i]]
       /\ pre' = (IF Fault = "drop" THEN <<>> ELSE pre)
       /\ hist' = Append(hist, "s") /\ UNCHANGED <<log, cell>>
Reset == /\ pre' = (IF Fault = "keep" THEN pre ELSE <<>>) /\ log' = <<>>
         /\ hist' = Append(hist, "r") /\ UNCHANGED <<cell, out>>
Next == Len(hist) < MaxLen /\ (Write \/ WriteCell \/ Change \/ Sum \/ Reset)
Digest == hist # <<>> /\ hist[Len(hist)] = "s" => out = log
Emit == (hist # <<>> /\ hist[Len(hist)] = "s") => PrintT(ToJson([h |-> hist]))
=============================================================================

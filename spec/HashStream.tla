----------------------------- MODULE HashStream -----------------------------
(***************************************************************************)
(* The streaming front end of the SHA-2 gadgets: Write buffers input and   *)
(* absorbs every full block, Sum pads a COPY of the state and yields the   *)
(* digest, Reset starts again.  Compression is left abstract: absorbing a  *)
(* block appends it to `abs`, so two states agree on every digest exactly  *)
(* if they absorbed the same blocks.  Bytes are positive tokens; 0 and -1  *)
(* are the padding bytes 0x00 and 0x80, and 1000 + n is the length field.  *)
(*                                                                         *)
(* Checked: whatever the interleaving of Write, Sum and Reset, the blocks  *)
(* a Sum absorbs are the Merkle-Damgard padding of exactly the bytes       *)
(* written since the last Reset.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS BS,      \* block size
          LF,      \* size of the length field
          Lens,    \* lengths a Write may have
          MaxBytes

VARIABLES w,       \* everything written since the last reset (the abstract state)
          abs,     \* blocks absorbed
          buf,     \* bytes buffered
          hist     \* the operations so far (for the generator only)
vars == <<w, abs, buf, hist>>

Init == w = <<>> /\ abs = <<>> /\ buf = <<>> /\ hist = <<>>

RECURSIVE Feed(_, _, _)
\* what the implementation does with bytes p: fill the buffer, absorb full blocks
Feed(a, b, p) ==
  IF Len(b) + Len(p) < BS THEN [a |-> a, b |-> b \o p]
  ELSE LET k == BS - Len(b)
       IN Feed(Append(a, b \o SubSeq(p, 1, k)), <<>>, SubSeq(p, k + 1, Len(p)))

Bytes(n) == [i \in 1..n |-> Len(w) + i]
Write(n) == /\ Len(w) + n <= MaxBytes
            /\ LET f == Feed(abs, buf, Bytes(n)) IN abs' = f.a /\ buf' = f.b
            /\ w' = w \o Bytes(n)
            /\ hist' = Append(hist, [op |-> "w", n |-> n])
Sum == /\ UNCHANGED <<w, abs, buf>>
       /\ hist' = Append(hist, [op |-> "s", n |-> 0])
Reset == /\ w' = <<>> /\ abs' = <<>> /\ buf' = <<>>
         /\ hist' = Append(hist, [op |-> "r", n |-> 0])
Next == (\E n \in Lens : Write(n)) \/ Sum \/ Reset
Spec == Init /\ [][Next]_vars

Zeros(n) == [i \in 1..n |-> 0]
LenField(n) == Zeros(LF - 1) \o <<1000 + n>>
\* the standard: 0x80, zeros up to the length field of the first block that has room, length
MDPad(m) == LET r == (Len(m) + 1 + LF) % BS
            IN m \o <<-1>> \o Zeros(IF r = 0 THEN 0 ELSE BS - r) \o LenField(Len(m))
RECURSIVE Split(_)
Split(p) == IF p = <<>> THEN <<>> ELSE <<SubSeq(p, 1, BS)>> \o Split(SubSeq(p, BS + 1, Len(p)))
\* the implementation: two more writes into a copy
SumBlocks == LET n == Len(w) % BS
                 z == IF n < BS - LF THEN BS - LF - n ELSE BS + BS - LF - n
                 f1 == Feed(abs, buf, <<-1>> \o Zeros(z - 1))
                 f2 == Feed(f1.a, f1.b, LenField(Len(w)))
             IN f2
SumIsStandard == SumBlocks.b = <<>> /\ SumBlocks.a = Split(MDPad(w))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
NothingLost == Flat(abs) \o buf = w /\ Len(buf) < BS
Inv == SumIsStandard /\ NothingLost

StateView == <<w, abs, buf>>
\* generator: one history per (buffer fill, operation) reachable, i.e. a transition cover
FillView == <<Len(buf), abs = <<>>>>
Emit == PrintT(ToJson(Append(hist', [op |-> "s", n |-> 0])))
=============================================================================

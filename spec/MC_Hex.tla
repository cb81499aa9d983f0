------------------------------- MODULE MC_Hex --------------------------------
(* The codec round-trips over all byte strings of up to two bytes (a third   *)
(* over a few values), with and without prefix, in both cases and with the   *)
(* leading zero digit left out.                                              *)
EXTENDS Hex
Byte == 0..255
Few == {0, 1, 15, 16, 127, 128, 175, 255}
VARIABLES b
Init == b = <<>>
Next == \/ Len(b) = 0 /\ \E x \in Byte : b' = <<x>>
        \/ Len(b) = 1 /\ \E x \in Byte : b' = Append(b, x)
        \/ Len(b) = 2 /\ b[1] \in Few /\ b[2] \in Few /\ \E x \in Byte : b' = Append(b, x)
Upper(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 THEN s[i] - 32 ELSE s[i]]
Round == /\ HexDec(HexEnc(b)) = b /\ HexDec(HexEnc0x(b)) = b /\ HexDec(Upper(HexEnc(b))) = b
         /\ HexDec(<<48, 88>> \o Upper(HexEnc(b))) = b
         /\ (b # <<>> /\ b[1] < 16 /\ b[1] # 0) => HexDec(Tail(HexEnc(b))) = b
         /\ HexStrOk(HexEnc0x(b)) /\ Len(HexEnc(b)) = 2 * Len(b)
         /\ RightMost(LeftPad(b, 3), Len(b)) = b /\ LeftPad(b, Len(b)) = b
         /\ RevSeq(RevSeq(b)) = b
=============================================================================

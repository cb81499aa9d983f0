-------------------------------- MODULE Hex ---------------------------------
(* Hex strings (sequences of character codes) and byte strings.             *)
EXTENDS Integers, Sequences
HexDigit(c) == (c >= 48 /\ c <= 57) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Has0x(s) == Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {88, 120}
Strip0x(s) == IF Has0x(s) THEN SubSeq(s, 3, Len(s)) ELSE s
IsHexStr(s) == \A i \in 1..Len(s) : HexDigit(s[i])
Even(s) == IF Len(s) % 2 = 1 THEN <<48>> \o s ELSE s
HexDec(s) == LET t == Even(Strip0x(s)) IN [i \in 1..(Len(t) \div 2) |-> 16 * HexVal(t[2 * i - 1]) + HexVal(t[2 * i])]
HexChar(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexEnc(b) == [i \in 1..(2 * Len(b)) |-> HexChar(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]
HexEnc0x(b) == <<48, 120>> \o HexEnc(b)
HexStrOk(s) == IsHexStr(Strip0x(s))
\* n bytes, the value to the right; what exceeds n is cut on the left
LeftPad(b, n) == [i \in 1..n |-> IF i <= n - Len(b) THEN 0 ELSE b[i - (n - Len(b))]]
RightMost(b, n) == IF Len(b) > n THEN SubSeq(b, Len(b) - n + 1, Len(b)) ELSE LeftPad(b, n)
ValidHash(s) == s # <<>> /\ LET t == Strip0x(s) IN Len(t) = 64 /\ IsHexStr(t)
RevSeq(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE JoinSeq(_, _)
JoinSeq(qs, sep) == IF qs = <<>> THEN <<>> ELSE IF Len(qs) = 1 THEN qs[1] ELSE qs[1] \o sep \o JoinSeq(Tail(qs), sep)
=============================================================================

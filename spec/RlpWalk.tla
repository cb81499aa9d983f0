------------------------------ MODULE RlpWalk ------------------------------
(* Reading RLP from a buffer of nibbles: positions and lengths are counted  *)
(* in nibbles, the first nibble is at position 1.                           *)
EXTENDS Integers, Sequences

ByteAt(in, i) == 16 * in[i] + in[i + 1]
RECURSIVE NumAt(_, _, _)
NumAt(in, i, k) == IF k = 0 THEN 0 ELSE 256 * NumAt(in, i, k - 1) + ByteAt(in, i + 2 * (k - 1))
NoItem == [ok |-> FALSE, canon |-> FALSE, list |-> FALSE, hdr |-> 0, len |-> 0, pos |-> 0]
\* the item whose first nibble is at i: header and payload sizes
ItemAt(in, i) ==
  IF i + 1 > Len(in) THEN NoItem
  ELSE LET b == ByteAt(in, i)
           list == b >= 192
           base == IF list THEN 192 ELSE 128
           k == b - base - 55
       IN IF b < 128 THEN [ok |-> TRUE, canon |-> TRUE, list |-> FALSE, hdr |-> 0, len |-> 2, pos |-> i]
          ELSE IF k <= 0
          THEN [ok |-> TRUE, list |-> list, hdr |-> 2, len |-> 2 * (b - base), pos |-> i,
                canon |-> ~(b = 129 /\ i + 3 <= Len(in) /\ ByteAt(in, i + 2) < 128)]
          ELSE IF i + 2 * k + 1 > Len(in) \/ (k > 3 /\ \E j \in (i + 2)..(i + 2 * k - 5) : in[j] # 0) THEN NoItem
          ELSE LET n == IF k > 3 THEN NumAt(in, i + 2 * (k - 2), 3) ELSE NumAt(in, i + 2, k)
               IN [ok |-> TRUE, list |-> list, hdr |-> 2 + 2 * k, len |-> 2 * n, pos |-> i,
                   canon |-> n >= 56 /\ ByteAt(in, i + 2) # 0]
RECURSIVE ItemsFrom(_, _, _)
\* the items that fill the positions i..stop-1 exactly
ItemsFrom(in, i, stop) ==
  IF i = stop THEN <<>>
  ELSE LET it == ItemAt(in, i) IN
       IF ~it.ok \/ i + it.hdr + it.len > stop THEN <<NoItem>>
       ELSE <<it>> \o ItemsFrom(in, i + it.hdr + it.len, stop)
\* the list at the start of the buffer
ListOf(in) ==
  LET h == ItemAt(in, 1) IN
  IF ~h.ok \/ ~h.list \/ h.hdr + h.len > Len(in)
  THEN [ok |-> FALSE, canon |-> FALSE, total |-> 0, hdr |-> 0, items |-> <<>>]
  ELSE LET its == ItemsFrom(in, 1 + h.hdr, 1 + h.hdr + h.len)
       IN [ok |-> \A i \in 1..Len(its) : its[i].ok,
           canon |-> h.canon /\ \A i \in 1..Len(its) : its[i].canon,
           total |-> h.hdr + h.len, hdr |-> h.hdr, items |-> its]
Payload(in, it) == SubSeq(in, it.pos + it.hdr, it.pos + it.hdr + it.len - 1)
Whole(in, it) == SubSeq(in, it.pos, it.pos + it.hdr + it.len - 1)
=============================================================================

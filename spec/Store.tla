-------------------------------- MODULE Store --------------------------------
(* Stored artefacts as a state machine.  A file is a sequence of blocks;     *)
(* artefact o fills Size[o] blocks, the first of which says which artefact   *)
(* it is.  A file may be written, written over, cut (a crash while writing,  *)
(* a short copy) and removed at any time.  A read gives the artefact last    *)
(* written, or an error.  Emit prints the histories for replay.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Fault      \* Fault: "" | "tail" | "append" | "lenient"
Files == {"f", "g"}
Objects == {1, 2}
Size == <<2, 4>>
VARIABLES disk, last, hist, out
vars == <<disk, last, hist, out>>
Absent == << <<0, 0>> >>
Blocks(o) == [i \in 1..Size[o] |-> <<o, i>>]
Init == disk = [f \in Files |-> Absent] /\ last = [f \in Files |-> "none"] /\ hist = <<>> /\ out = "none"
Over(old, new) == CASE Fault = "tail" /\ old # Absent /\ Len(old) > Len(new) -> new \o SubSeq(old, Len(new) + 1, Len(old))
                    [] Fault = "append" /\ old # Absent -> old \o new
                    [] OTHER -> new
Put(f, o) == /\ disk' = [disk EXCEPT ![f] = Over(@, Blocks(o))] /\ last' = [last EXCEPT ![f] = IF o = 1 THEN "one" ELSE "two"]
             /\ hist' = Append(hist, <<"put", f, o>>) /\ UNCHANGED out
\* a cut that loses something of an artefact (n blocks remain)
Cut(f, n) == /\ disk[f] # Absent /\ n < Len(disk[f]) /\ disk' = [disk EXCEPT ![f] = SubSeq(@, 1, n)]
             /\ last' = [last EXCEPT ![f] = IF @ = "none" THEN "none" ELSE "cut"]
             /\ hist' = Append(hist, <<"cut", f, n>>) /\ UNCHANGED out
Drop(f) == /\ disk[f] # Absent /\ disk' = [disk EXCEPT ![f] = Absent] /\ last' = [last EXCEPT ![f] = "none"]
           /\ hist' = Append(hist, <<"rm", f, 0>>) /\ UNCHANGED out
Parse(b) == IF b = Absent \/ b = <<>> THEN "error"
            ELSE LET o == b[1][1] IN
                 IF Fault = "lenient" \/ (Len(b) >= Size[o] /\ SubSeq(b, 1, Size[o]) = Blocks(o)) THEN (IF o = 1 THEN "one" ELSE "two") ELSE "error"
Get(f) == /\ out' = Parse(disk[f]) /\ hist' = Append(hist, <<"get", f, 0>>) /\ UNCHANGED <<disk, last>>
Next == Len(hist) < MaxLen /\ \E f \in Files : \/ \E o \in Objects : Put(f, o)
                                             \/ \E n \in 0..1 : Cut(f, n)
                                             \/ Drop(f) \/ Get(f)
AtGet == hist # <<>> /\ hist[Len(hist)][1] = "get"
ReadBack == AtGet => LET f == hist[Len(hist)][2] IN
  out = IF last[f] \in {"none", "cut"} THEN "error" ELSE last[f]
\* nothing but the artefact is in the file
Exact == \A f \in Files : last[f] \in {"one", "two"} => disk[f] = Blocks(IF last[f] = "one" THEN 1 ELSE 2)
Emit == AtGet /\ (\A i \in 1..(Len(hist) - 1) : hist[i][1] = "get" => hist[i + 1][1] # "get") => PrintT(ToJson([h |-> hist]))
=============================================================================

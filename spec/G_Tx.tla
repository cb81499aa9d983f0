-------------------------------- MODULE G_Tx --------------------------------
(* Scenarios of signed transactions (C23) and of blocks with lists of       *)
(* transactions and receipts (C24): what is signed, and what is changed     *)
(* afterwards ("none": nothing).                                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS What, Reps, BigLists
Types == {"legacy", "dynamic"}
Others == {"bare", "access", "blob"}
Chains == {"zero", "one", "small", "word", "edge", "wide"}
Tos == {"some", "none", "zeros"}
Datas == {"empty", "b7f", "b80", "d55", "d56", "d300"}
Lists == {"none", "bare", "keys"}
Fields == {"chain", "nonce", "tip", "fee", "gas", "to", "value", "data", "list"}
Signatures == {"r0", "s0", "r+1", "s+1", "rn", "sn", "high", "flip", "v2", "v3", "v4", "v257", "rwide", "swide", "vsmall"}
Sizes == {0, 1, 2, 3, 16, 17, 128, 129} \cup BigLists
Tampers == {"none", "root", "drop", "swap", "extra", "field", "past", "far", "negative"}
VARIABLES g, x, rep
vars == <<g, x, rep>>
Init == /\ g \in What /\ rep \in 1..Reps
        /\ \/ g = "tx" /\ x \in [t : Types, c : Chains, to : Tos, d : {"any"}, l : {"any"}, a : {"none"}]
                              \cup [t : Types, c : {"any"}, to : {"any"}, d : Datas, l : Lists, a : {"none"}]
                              \cup [t : Types, c : {"any"}, to : {"any"}, d : {"any"}, l : {"any"}, a : Fields \cup Signatures]
                              \cup [t : Others, c : {"any"}, to : Tos, d : {"any"}, l : {"any"}, a : {"none"}]
           \/ g = "block" /\ x \in [n : Sizes, k : {"tx", "rcpt"}, a : {"none"}] \cup [n : {1, 2, 17}, k : {"tx", "rcpt"}, a : Tampers]
Next == FALSE /\ UNCHANGED vars
Emit == PrintT(ToJson([g |-> g, x |-> x, rep |-> rep]))
=============================================================================

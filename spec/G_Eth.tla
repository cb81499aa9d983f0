-------------------------------- MODULE G_Eth --------------------------------
(* Scenarios of the account, storage, header and combined gadgets: the kind *)
(* of value and what is wrong with the witness ("none": nothing).           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Reps
Accounts == {"plain", "fresh", "contract", "bignonce", "maxbalance", "overbalance", "smallbytes"}
AccountTampers == {"none", "nonce", "balance", "root", "code", "address", "state", "other", "longer", "shorter", "junk"}
Values == {"one", "b7f", "b80", "two", "odd31", "full31", "full32", "top", "zeros"}
StorageTampers == {"none", "value", "slot", "root", "absent", "shift", "header", "tail"}
Headers == {"frontier", "london", "shanghai", "small", "extra32", "extra97", "big"}
HeaderTampers == {"none", "state", "number", "time", "bloom", "nf-", "nf+", "round", "len", "cut"}
Fulls == {"plain", "fork", "cancun"}
FullTampers == {"none", "hash", "header", "account", "storage", "slot", "address", "value", "otherstate", "otherroot"}
VARIABLES g, kind, tamper, rep
vars == <<g, kind, tamper, rep>>
Init == /\ \/ g = "account" /\ kind \in Accounts /\ tamper \in AccountTampers
           \/ g = "storage" /\ kind \in Values /\ tamper \in StorageTampers
           \/ g = "header" /\ kind \in Headers /\ tamper \in HeaderTampers
           \/ g = "full" /\ kind \in Fulls /\ tamper \in FullTampers
        /\ rep \in 1..Reps
        /\ tamper # "none" /\ Reps = 1 /\ g \in {"account", "storage", "header"} => kind \in {"plain", "contract", "two", "full32", "b7f", "london", "shanghai"}
Next == FALSE /\ UNCHANGED vars
Emit == PrintT(ToJson([g |-> g, kind |-> kind, tamper |-> tamper, rep |-> rep]))
=============================================================================

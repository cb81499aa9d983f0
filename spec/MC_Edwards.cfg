CONSTANTS P = 17 D = 7 GX = 7 GY = 3 N = 3 Bits = 5 Mutant = "none"
INIT Init
NEXT Next
INVARIANTS Group Single Double Exact Signer Const
CHECK_DEADLOCK FALSE

CONSTANTS P = 37 D = 2 GX = 8 GY = 10 N = 5 Bits = 5 Mutant = "none"
INIT Init
NEXT Next
INVARIANTS Group Single Double Exact Signer Const
CHECK_DEADLOCK FALSE

CONSTANTS P = 43 B7 = 7 GX = 2 GY = 12 N = 31 Mutant = "noneg"
INIT Init
NEXT Next
INVARIANTS Signer Altered Base
CHECK_DEADLOCK FALSE

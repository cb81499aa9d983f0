CONSTANTS P = 67 B7 = 7 GX = 2 GY = 22 N = 79 Mutant = "none"
INIT Init
NEXT Next
INVARIANTS Signer Altered Base
CHECK_DEADLOCK FALSE

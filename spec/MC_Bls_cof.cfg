CONSTANTS Deep = FALSE Mutant = "cof"
INIT Init
NEXT Next
INVARIANTS Bilinear Product Points Tower
CHECK_DEADLOCK FALSE

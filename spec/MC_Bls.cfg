CONSTANTS Deep = FALSE Mutant = "none"
INIT Init
NEXT Next
INVARIANTS Bilinear Product Points Tower
CHECK_DEADLOCK FALSE

CONSTANTS Deep = FALSE Mutant = "untwist"
INIT Init
NEXT Next
INVARIANTS Bilinear Product Points Tower
CHECK_DEADLOCK FALSE

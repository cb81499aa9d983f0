CONSTANTS MaxKeys = 3 Sizes = {1, 2, 3, 16, 17, 127, 128, 129, 130, 257}
INIT Init
NEXT Next
INVARIANTS Sets Lists
CHECK_DEADLOCK FALSE

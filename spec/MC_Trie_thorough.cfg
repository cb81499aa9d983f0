CONSTANTS MaxKeys = 5 Sizes = {1, 2, 3, 16, 17, 127, 128, 129, 130, 255, 256, 257, 272, 300}
INIT Init
NEXT Next
INVARIANTS Sets Lists
CHECK_DEADLOCK FALSE

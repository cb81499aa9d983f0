INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Sound
INVARIANT Complete
CONSTANTS
  Nib = {0, 1, 2}
  KL = 2
  MaxKeys = 2
  MaxDepth = 3
  Dropped = "none"

INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Sound
CONSTANTS
  Nib = {0, 1}
  KL = 3
  MaxKeys = 2
  MaxDepth = 3
  Dropped = "extpath"

INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  Reps = 6

INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  MaxLen = 6
  MaxVals = 4
  Keep = FALSE

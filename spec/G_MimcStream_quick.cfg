INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  MaxLen = 4
  MaxVals = 4
  Keep = FALSE

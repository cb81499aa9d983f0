INIT Init
NEXT Next
INVARIANT Digest
CONSTANTS
  MaxLen = 7
  MaxVals = 5
  Keep = TRUE

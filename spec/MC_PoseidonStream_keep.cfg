INIT Init
NEXT Next
INVARIANT Digest
CONSTANTS
  MaxLen = 7
  Fault = "keep"

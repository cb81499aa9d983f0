INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  MaxLen = 6
  Fault = ""

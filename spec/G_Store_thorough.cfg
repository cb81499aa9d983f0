INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  MaxLen = 5
  Fault = ""

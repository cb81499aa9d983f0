INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  MaxLen = 4
  Fault = ""

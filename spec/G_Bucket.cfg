INIT Init
NEXT Next
INVARIANTS Emit
CONSTANTS
  MaxLen = 3
  Page = 9
  Fault = ""
  NKeys = 4

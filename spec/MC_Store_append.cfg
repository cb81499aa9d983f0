INIT Init
NEXT Next
INVARIANTS ReadBack Exact
CONSTANTS
  MaxLen = 6
  Fault = "append"

INIT Init
NEXT Next
INVARIANTS Emit
CONSTANTS
  Fault = ""
  MaxSlot = 1

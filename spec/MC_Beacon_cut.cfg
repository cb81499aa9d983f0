INIT Init
NEXT Next
INVARIANTS Sound Finality Asked
CONSTANTS
  Fault = "cut"
  MaxSlot = 3

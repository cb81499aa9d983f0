INIT Init
NEXT Next
INVARIANTS Sound Finality Asked
CONSTANTS
  Fault = ""
  MaxSlot = 4

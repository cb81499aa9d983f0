INIT Init
NEXT Next
INVARIANTS Sound Finality Asked
CONSTANTS
  Fault = "status"
  MaxSlot = 3

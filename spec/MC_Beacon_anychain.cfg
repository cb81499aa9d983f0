INIT Init
NEXT Next
INVARIANTS Sound Finality Asked
CONSTANTS
  Fault = "anychain"
  MaxSlot = 3

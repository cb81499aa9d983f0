INIT Init
NEXT Next
INVARIANTS Injective Recovers
CONSTANTS
  G = 3
  WBlk = 2
  WLog = 3
  MaxLogs = 2
  WTime = 1

INIT Init
NEXT Next
INVARIANTS Injective Recovers
CONSTANTS
  G = 4
  WBlk = 2
  WLog = 1
  MaxLogs = 2
  WTime = 1

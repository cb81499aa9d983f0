INIT Init
NEXT Next
INVARIANTS Hold Told Whole Complete
CONSTANTS
  MaxLen = 3
  Page = 1
  Fault = "partial"
  NKeys = 3

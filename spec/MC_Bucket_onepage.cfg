INIT Init
NEXT Next
INVARIANTS Hold Told Whole Complete
CONSTANTS
  MaxLen = 3
  Page = 1
  Fault = "onepage"
  NKeys = 3

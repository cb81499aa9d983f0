INIT Init
NEXT Next
INVARIANTS Hold Told Whole Complete
CONSTANTS
  MaxLen = 4
  Page = 2
  Fault = ""
  NKeys = 4

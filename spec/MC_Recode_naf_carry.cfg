INIT Init
NEXT Next
INVARIANTS Stands Small Sparse
CONSTANTS
  Bits = 12
  V = 5
  Kind = "naf"
  Fault = "carry"

INIT Init
NEXT Next
INVARIANTS Stands Small Sparse
CONSTANTS
  Bits = 14
  V = 8
  Kind = "naf"
  Fault = ""

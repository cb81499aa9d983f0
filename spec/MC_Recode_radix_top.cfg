INIT Init
NEXT Next
INVARIANTS Stands Small Sparse
CONSTANTS
  Bits = 16
  V = 4
  Kind = "radix"
  Fault = "top"

INIT Init
NEXT Next
INVARIANTS Bound Positive InWord Right Unique
VIEW View
CONSTANTS
  W = 5
  C = 3
  Word = 128
  Fault = "mul"

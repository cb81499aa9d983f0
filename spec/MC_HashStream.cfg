INIT Init
NEXT Next
VIEW StateView
INVARIANT Inv
CONSTANTS
  BS = 8
  LF = 2
  Lens = {0, 1, 2, 5, 6, 7, 8, 9, 15, 16, 17}
  MaxBytes = 40

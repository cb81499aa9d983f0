INIT Init
NEXT Next
VIEW FillView
ACTION_CONSTRAINT Emit
CONSTANTS
  BS = 64
  LF = 8
  Lens = {0, 1, 3, 8, 55, 56, 57, 63, 64, 65, 119, 120, 128, 135}
  MaxBytes = 600

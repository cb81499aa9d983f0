INIT Init
NEXT Next
VIEW FillView
ACTION_CONSTRAINT Emit
CONSTANTS
  BS = 128
  LF = 16
  Lens = {0, 1, 5, 16, 111, 112, 113, 127, 128, 129, 239, 240, 256, 263}
  MaxBytes = 1200

INIT Init
NEXT Next
CONSTANTS
  P = 19
  Mutant = "sgn"
INVARIANT Agree
INVARIANT OnCurve
INVARIANT Homo

INIT Init
NEXT Next
CONSTANTS
  P = 43
  Mutant = "none"
INVARIANT Agree
INVARIANT OnCurve
INVARIANT Homo

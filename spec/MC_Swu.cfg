INIT Init
NEXT Next
CONSTANTS
  P = 19
  Mutant = "none"
INVARIANT Agree
INVARIANT OnCurve
INVARIANT Homo

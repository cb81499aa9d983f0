INIT Init
NEXT Next
CONSTANTS
  P = 19
  Mutant = "cmov"
INVARIANT Agree
INVARIANT OnCurve
INVARIANT Homo

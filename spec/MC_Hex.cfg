INIT Init
NEXT Next
INVARIANT Round

INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS N = 4
 Vals = {0, 1, 2}
 MaxShift = 7

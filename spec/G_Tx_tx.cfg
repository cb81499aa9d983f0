CONSTANTS What = {"tx"} Reps = 2 BigLists = {130, 300}
INIT Init
NEXT Next
INVARIANT Emit

CONSTANTS What = {"block"} Reps = 1 BigLists = {130, 300}
INIT Init
NEXT Next
INVARIANT Emit

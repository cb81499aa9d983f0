CONSTANTS What = {"tx"} Reps = 6 BigLists = {127, 130, 255, 256, 257, 300, 400}
INIT Init
NEXT Next
INVARIANT Emit

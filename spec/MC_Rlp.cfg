INIT Init
NEXT Next
INVARIANTS RoundTrip NoPrefix Header

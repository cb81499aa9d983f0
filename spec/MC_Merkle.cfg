INIT Init
NEXT Next
INVARIANTS Sound Complete Agrees Sides
CONSTANTS
  Depth = 2
  Atoms = {1, 2}
  Ignore = "none"

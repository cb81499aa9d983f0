INIT Init
NEXT Next
INVARIANTS Sound 
CONSTANTS
  Depth = 2
  Atoms = {1, 2}
  Ignore = "side"

INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  Steps = {"B", "1", "2", "3"}
  MaxInner = 4
  MaxKey = 60
  Devs = {"habsent", "present", "whole", "nonzero", "shift", "astart", "otherleaf", "depth1", "broken", "valuenode"}

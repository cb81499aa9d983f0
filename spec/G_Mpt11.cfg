INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  Steps = {"B", "1", "2"}
  MaxInner = 2
  MaxKey = 5
  Devs = {"honest", "leaf", "link", "ref", "key", "start", "skip", "repeat", "type", "leafext", "extplen", "cut", "badlist", "depth1", "depth", "short", "inner"}

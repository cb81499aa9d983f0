INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  Steps = {"B", "1", "2", "3"}
  MaxInner = 4
  MaxKey = 6
  Devs = {"honest", "leaf", "link", "ref", "key", "start", "skip", "repeat", "type", "leafext", "extplen", "cut", "badlist", "depth1", "depth", "short", "inner"}

INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  Steps = {"B", "1", "2", "3"}
  MaxInner = 4
  MaxKey = 60
  Devs = {"value", "link", "ref", "keylink", "key", "start", "skip", "repeat", "leafshort", "leaflong", "extleaf", "badflag", "leafext", "plen", "extplen", "cut", "badlist", "type", "types", "depth1", "depth", "short", "honest"}

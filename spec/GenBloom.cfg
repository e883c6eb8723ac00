SPECIFICATION GSpec
CONSTANTS
  Entries = {1, 2, 3, 4}
  Slots = {1, 2, 3}
  Regions = 1
  RegionBits = 3
  K = 1
  CacheBits = {0}
  Caps = {2}
  MaxCnt = 3
  Datas = {"none", "some"}
  Check = {}
  Depth = 16
  Ops = {"insert", "contains", "union", "inter", "common", "clone", "create", "clear", "load", "partial", "save", "setdata"}
INVARIANT Emit
CHECK_DEADLOCK FALSE

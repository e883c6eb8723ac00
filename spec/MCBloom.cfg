SPECIFICATION Spec
CONSTANTS
  Entries = {1, 2}
  Slots = {1, 2}
  Regions = 1
  RegionBits = 2
  K = 2
  CacheBits = {0, 2}
  Caps = {0, 1, 2}
  MaxCnt = 3
  Datas = {"none"}
  Check = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C19", "C20"}
INVARIANTS NoFalseNegative Shape NothingFromNothing
CHECK_DEADLOCK FALSE

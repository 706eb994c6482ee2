SPECIFICATION Spec
CONSTANTS
  NRegs = 4
  Depth = 40
  NaPs = TRUE
  Mostly = {"SetFrom", "SetFromSubgroupPoint", "Clone", "AddEq"}
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NRegs = 4
  Depth = 40
  NaPs = FALSE
  Mostly = {"Add", "Sub", "AddEq", "SubEq", "Double"}
CHECK_DEADLOCK FALSE

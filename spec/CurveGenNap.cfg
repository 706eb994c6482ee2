SPECIFICATION Spec
CONSTANTS
  NRegs = 4
  Depth = 40
  NaPs = TRUE
  Mostly = {"Add", "SubEq", "IsEqual", "Handler"}
CHECK_DEADLOCK FALSE

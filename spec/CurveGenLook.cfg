SPECIFICATION Spec
CONSTANTS
  NRegs = 4
  Depth = 40
  NaPs = FALSE
  Mostly = {"IsEqual", "Is", "Sub"}
CHECK_DEADLOCK FALSE

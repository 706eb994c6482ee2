SPECIFICATION Spec
CONSTANTS
  NRegs = 4
  Depth = 40
  NaPs = FALSE
  Mostly = {"Coo", "Norm", "Add"}
CHECK_DEADLOCK FALSE

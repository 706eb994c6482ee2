SPECIFICATION Spec
CONSTANTS
  NRegs = 4
  Depth = 40
  NaPs = FALSE
  Mostly = {"Endo", "EndoEq", "Add"}
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  P = "7"
  NRegs = 2
  Depth = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE

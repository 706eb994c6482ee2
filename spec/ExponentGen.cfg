SPECIFICATION Spec
CONSTANTS
  Order = "5"
  Regs = {"r0", "r1"}
  Depth = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE

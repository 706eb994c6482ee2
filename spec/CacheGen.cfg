SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Keys = {"k", "m"}
  MaxN = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE

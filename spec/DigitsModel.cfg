SPECIFICATION Spec
CONSTANTS
  Max = 300
  W = 3
INVARIANTS Partial Done
PROPERTY Ends
CHECK_DEADLOCK FALSE

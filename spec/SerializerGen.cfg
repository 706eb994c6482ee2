SPECIFICATION Spec
CONSTANTS
  Depth = 30
CHECK_DEADLOCK FALSE

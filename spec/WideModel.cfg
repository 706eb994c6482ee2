SPECIFICATION Spec
CONSTANTS
  P = "1d"
  Bits = 6
INVARIANTS Contracts Reps Sliding
PROPERTY Chains
CHECK_DEADLOCK FALSE

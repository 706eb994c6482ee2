SPECIFICATION Spec
CONSTANTS
  Thr = 5
  Depth = 4
INVARIANTS Fifo Bounded Permanent Exact Emit
CHECK_DEADLOCK FALSE

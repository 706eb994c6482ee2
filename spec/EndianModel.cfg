SPECIFICATION Spec
CONSTANT BB = 1
INVARIANTS Unique HeaderValid
CHECK_DEADLOCK FALSE

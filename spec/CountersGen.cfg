SPECIFICATION GSpec
CONSTANT Depth = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE

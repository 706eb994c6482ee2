SPECIFICATION Spec
CONSTANT Depth = 24
CHECK_DEADLOCK FALSE

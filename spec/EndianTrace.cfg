SPECIFICATION Spec
CONSTANT BB = 8
CHECK_DEADLOCK FALSE

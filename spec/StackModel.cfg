SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Length Lifo Emit
CHECK_DEADLOCK FALSE

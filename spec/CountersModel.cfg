SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Conserve Parents Linear Commute
PROPERTIES Quiet Frame Grow
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NViews = 2
  Depth = 5
INVARIANTS Agree InRange ValuesFixed PartOfPart
CHECK_DEADLOCK FALSE

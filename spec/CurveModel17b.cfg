SPECIFICATION Spec
CONSTANTS
  P = "11"
  A = "c"
  D = "b"
  R = "c"
  EB = "a"
  EC = "7"
  Q = 17
  RegTypes <- T3
  Sub = 3
  WithOps = TRUE
  Crit = FALSE
INVARIANTS Holds Laws
CHECK_DEADLOCK FALSE

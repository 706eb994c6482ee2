SPECIFICATION Spec
CONSTANTS
  P = "11"
  A = "c"
  D = "a"
  R = "7"
  EB = "5"
  EC = "5"
  Q = 17
  RegTypes <- T3b
  Sub = 3
  WithOps = TRUE
  Crit = FALSE
INVARIANTS Holds Laws
CHECK_DEADLOCK FALSE

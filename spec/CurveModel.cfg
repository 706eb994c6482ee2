SPECIFICATION Spec
CONSTANTS
  P = "71"
  A = "6c"
  D = "28"
  R = "34"
  EB = "32"
  EC = "11"
  Q = 113
  RegTypes <- T2
  Sub = 33
  WithOps = FALSE
  Crit = TRUE
INVARIANTS Holds Laws
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  P = "71"
  A = "6c"
  D = "2b"
  R = "3f"
  EB = "3d"
  EC = "17"
  Q = 113
  RegTypes <- T2
  Sub = 33
  WithOps = FALSE
  Crit = TRUE
INVARIANTS Holds Laws
CHECK_DEADLOCK FALSE

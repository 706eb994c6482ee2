SPECIFICATION Spec
CONSTANTS
  P = "71"
  A = "6c"
  D = "28"
  R = "34"
  EB = "32"
  EC = "11"
  NB = 2
  BB = 4
  LB = 1
  MaxInt = "7"
  MaxPre = 4
  Q = 113
  Mode = "params"
  Fmts <- FmtAll
  Frames <- FramesNone
  MaxPts = 3
  Cells = {0}
  Rich = FALSE
INVARIANTS Params
CHECK_DEADLOCK FALSE

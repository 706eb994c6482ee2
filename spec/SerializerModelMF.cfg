SPECIFICATION Spec
CONSTANTS
  P = "71"
  A = "6c"
  D = "28"
  R = "34"
  EB = "32"
  EC = "11"
  NB = 2
  BB = 4
  LB = 1
  MaxInt = "d"
  MaxPre = 4
  Q = 113
  Mode = "multi"
  Fmts <- FmtAll
  Frames <- FramesMulti
  MaxPts = 2
  Cells = {0, 1, 2, 8, 15}
  Rich = TRUE
INVARIANTS Canonical Intact IntactMany Reading CutShort Writing
CHECK_DEADLOCK FALSE

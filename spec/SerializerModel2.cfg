SPECIFICATION Spec
CONSTANTS
  P = "71"
  A = "6c"
  D = "28"
  R = "34"
  EB = "32"
  EC = "11"
  NB = 2
  BB = 4
  LB = 1
  MaxInt = "63"
  MaxPre = 4
  Q = 113
  Mode = "single"
  Fmts <- FmtTwo
  Frames <- FramesNone
  MaxPts = 1
  Cells = {0}
  Rich = FALSE
INVARIANTS Canonical RoundTrip ZeroRejected Reading
CHECK_DEADLOCK FALSE

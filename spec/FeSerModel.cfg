SPECIFICATION Spec
CONSTANTS
  Mod = "5"
  NB = 2
  BB = 2
  MaxPre = 2
INVARIANTS RoundTrip Canonical Counts Total
CHECK_DEADLOCK FALSE

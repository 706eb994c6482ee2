SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  NOwn = 1
  NShared = 1
  Q = 2
  MaxOps = 1
  ScratchOf = "own"
  SharedNormal = TRUE
INVARIANTS TypeOK Alone SharedStay NoRace
PROPERTIES Ends
CHECK_DEADLOCK FALSE

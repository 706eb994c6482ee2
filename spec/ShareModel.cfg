SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  NOwn = 2
  NShared = 1
  Q = 3
  MaxOps = 1
  ScratchOf = "own"
  SharedNormal = TRUE
INVARIANTS TypeOK Alone SharedStay NoRace
PROPERTIES Ends
CHECK_DEADLOCK FALSE

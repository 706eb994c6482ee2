SPECIFICATION Spec
CONSTANTS
  Mod = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"
  NB = 32
  BB = 8
  MaxPre = 8
CHECK_DEADLOCK FALSE

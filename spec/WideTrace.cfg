SPECIFICATION Spec
CONSTANTS
  P = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"
  Bits = 256
CHECK_DEADLOCK FALSE

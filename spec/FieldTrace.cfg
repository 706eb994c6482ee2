SPECIFICATION Spec
CONSTANT P = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"
CHECK_DEADLOCK FALSE

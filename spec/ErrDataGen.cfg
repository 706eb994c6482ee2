SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxErr = 99
 Few = FALSE
 Depth = 8

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 4
CONSTANT FmtVal <- MFmtVal
CONSTANT FmtMap <- MFmtMap
INVARIANTS Agree Reported Escaped

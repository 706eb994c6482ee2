SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 5
CONSTANT FmtVal <- MFmtVal
CONSTANT FmtMap <- MFmtMap
INVARIANTS Agree Reported Escaped

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT FmtVal <- TFmtVal
CONSTANT FmtMap <- TFmtMap

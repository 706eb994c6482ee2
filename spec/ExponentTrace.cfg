SPECIFICATION Spec
CONSTANT Order = "1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1"
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 4
 Blocks = {"x", "A", "%", "$", "{", "}", "%!", "$!", "%w", "$w", "m>0", "\\%"}
INVARIANT Emit

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 3
 Blocks = {"x", "A", "%", "$", "{", "}", "%!", "$!", "%w", "$w", "m>0", "\\%", "\\", "%{A}", "$s{B}"}
INVARIANT Emit

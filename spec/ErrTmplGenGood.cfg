SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 4
 Blocks = {"x", "%{A}", "$s{B}", "%w", "$w", "%!m>0{", "%!m=0{", "$!m>0{", "$!m=0{", "}", "${!m}"}
INVARIANT Emit

SPECIFICATION Spec
CONSTANTS
  Order = "53"
  Lambda = "4a"
  B11 = "9"
  B12 = "1"
  B21 = "-2"
  B22 = "9"
  Bound = "5"
  Box = 8
INVARIANTS CriterionExact Exists
CHECK_DEADLOCK FALSE

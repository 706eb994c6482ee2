SPECIFICATION Spec
CONSTANTS
  Order = "2b"
  Lambda = "10"
  B11 = "5"
  B12 = "-3"
  B21 = "6"
  B22 = "5"
  Bound = "4"
  Box = 7
INVARIANTS CriterionExact Exists
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  P = "7"
  Top = 9
  NRegs = 3
INVARIANTS Laws Observers
PROPERTY Refines
VIEW StateView
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  P = "d"
  Top = 19
  NRegs = 2
INVARIANTS Laws Observers
PROPERTY Refines
VIEW StateView
CHECK_DEADLOCK FALSE

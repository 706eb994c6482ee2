SPECIFICATION Spec
CONSTANTS
  Order = "5"
  Regs = {"r0", "r1", "r2"}
  SmallMax = 21
INVARIANTS Closed Laws Homomorphic ViewsAgree
PROPERTY FrameOK
VIEW StateView
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Keys = {"k", "m"}
  MaxN = 2
INVARIANTS OnePre Lengths Prefix AtEnd Exclusive
PROPERTIES Stable Finishes
VIEW View

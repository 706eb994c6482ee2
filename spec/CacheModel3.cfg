SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Keys = {"k"}
  MaxN = 2
INVARIANTS OnePre Lengths Prefix AtEnd Exclusive
PROPERTY Stable
VIEW View

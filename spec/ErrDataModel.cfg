SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxErr = 2
 Few = TRUE
INVARIANT Guarantee
INVARIANT Identity
INVARIANT Transitive
INVARIANT NoBoxInside
INVARIANT Merged
INVARIANT Deleted
INVARIANT ReadBack
INVARIANT NilStays
PROPERTY Immutable

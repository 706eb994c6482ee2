SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxErr = 2
 Few = FALSE
INVARIANT Guarantee
INVARIANT Identity
INVARIANT Transitive
INVARIANT NoBoxInside
INVARIANT Merged
INVARIANT Deleted
INVARIANT ReadBack
INVARIANT NilStays
PROPERTY Immutable

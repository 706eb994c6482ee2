SPECIFICATION EofSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxErr = 3
 Few = TRUE
INVARIANT EofLaws
INVARIANT Guarantee
INVARIANT Identity
INVARIANT Transitive
INVARIANT NoBoxInside
INVARIANT Merged
INVARIANT Deleted
INVARIANT ReadBack
INVARIANT NilStays
PROPERTY Immutable

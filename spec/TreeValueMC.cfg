SPECIFICATION MCSpec
CONSTANTS MaxNodes = 5
 Depth = 5
CONSTRAINT Bound
INVARIANTS Refines Disjoint Equality
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS MaxObj = 3
 Depth = 8
CONSTRAINT Bound
INVARIANTS Counted Once Exactly WellTyped OnePerHolder
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS MaxObj = 4
 Depth = 9
CONSTRAINT Bound
INVARIANTS Exclusive Once Exactly
CHECK_DEADLOCK FALSE

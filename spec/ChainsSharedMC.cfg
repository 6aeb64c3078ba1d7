SPECIFICATION MCSpec
CONSTANTS MaxObj = 4
 Depth = 8
 Sole = FALSE
CONSTRAINT Bound
INVARIANTS Counted Exclusive Once Exactly NoDangling
CHECK_DEADLOCK FALSE

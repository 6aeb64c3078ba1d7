SPECIFICATION MCSpec
CONSTANTS MaxObj = 4
 Depth = 9
 Sole = TRUE
CONSTRAINT Bound
INVARIANTS Counted Exclusive Once Exactly NoDangling
CHECK_DEADLOCK FALSE

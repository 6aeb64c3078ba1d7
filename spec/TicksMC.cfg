SPECIFICATION MCSpec
CONSTANTS H <- Small
 Latest = 2100
 Jumps = {1, 17, 100}
INVARIANTS Exact Elapsed
CHECK_DEADLOCK FALSE

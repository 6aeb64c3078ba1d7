SPECIFICATION MCSpec
CONSTANT N = 140
INVARIANTS Bignums Powers Nearness
CHECK_DEADLOCK FALSE

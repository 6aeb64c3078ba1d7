SPECIFICATION MCSpec
CONSTANT MaxN = 3
INVARIANT Representation
CHECK_DEADLOCK FALSE

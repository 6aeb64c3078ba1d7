SPECIFICATION MCSpec
CONSTANTS MaxLen = 12  Counts = {0, 1, 2, 3, 5, 7, 12, 13, 2000000000}
INVARIANT Lossless
PROPERTY AllOrNothing
CHECK_DEADLOCK FALSE

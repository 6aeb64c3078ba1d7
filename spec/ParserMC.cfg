SPECIFICATION MCSpec
CONSTANTS Alphabet = {32, 10, 44, 97} MaxLen = 3 Stops = {44, 97} Counts = {0, 1, 2, 5}
INVARIANT Bounds
PROPERTIES Forward Stopped NoSpaceLeft
CHECK_DEADLOCK FALSE

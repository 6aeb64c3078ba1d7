SPECIFICATION MCSpec
CONSTANTS Alphabet = {32, 10, 97} MaxLen = 6 Widths = {1, 2, 3, 4}
INVARIANTS Correct InBounds
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS MemLen = 11  Positions = {0, 3}  Depth = 3
CONSTRAINT Bound
INVARIANTS Bytes RoundTrip
PROPERTY Local
CHECK_DEADLOCK FALSE

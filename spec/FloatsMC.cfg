SPECIFICATION MCSpec
CONSTANTS P = 3
 Sub = 6
 EMax = 2
 MaxD = 300
 Down = 3
 Up = 1
INVARIANTS Inv
CHECK_DEADLOCK FALSE

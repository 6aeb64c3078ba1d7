SPECIFICATION MCSpec
CONSTANTS MaxN = 9
 MaxKeys = 4
 Values = {1, 2, 3, 4}
INVARIANTS OnTheWay FlipsPrefix Twice
PROPERTY Arrives
CHECK_DEADLOCK FALSE

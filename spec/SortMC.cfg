SPECIFICATION MCSpec
CONSTANTS MaxLen = 5
 Keys = {1, 2, 3, 12}
INVARIANT QuickSorts Shallow
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS MaxLen = 3
 MaxSteps = 2
INVARIANTS Laws Defined
CHECK_DEADLOCK FALSE

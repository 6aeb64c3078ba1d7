SPECIFICATION MCSpec
CONSTANTS MaxNodes = 3
 MaxEdits = 2
 MaxSize = 5
INVARIANTS Follows Sound
PROPERTIES EraseFollows Local
CHECK_DEADLOCK FALSE

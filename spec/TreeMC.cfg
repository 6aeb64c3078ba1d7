SPECIFICATION MCSpec
CONSTANTS MaxNodes = 5
 MaxEdits = 1
 MaxSize = 7
INVARIANTS Follows Sound
PROPERTIES EraseFollows Local
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANT MaxLen = 4
INVARIANTS InBounds Prefix Involution
PROPERTY Ends
CHECK_DEADLOCK FALSE

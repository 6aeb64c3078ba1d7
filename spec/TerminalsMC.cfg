SPECIFICATION MCSpec
INVARIANTS Right
PROPERTIES Own
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANT Things <- Few
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANT MaxLen = 3
INVARIANTS Agrees Stops Silent
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANT MaxLen = 2
INVARIANTS Inside Nested WithinExact Total
CHECK_DEADLOCK FALSE

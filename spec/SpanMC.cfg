SPECIFICATION MCSpec
CONSTANT MaxLen = 3
INVARIANTS Inside Nested WithinExact Total
CHECK_DEADLOCK FALSE

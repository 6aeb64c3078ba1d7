SPECIFICATION MCSpec
INVARIANTS Family Widths Widths2 Known Standards
CHECK_DEADLOCK FALSE

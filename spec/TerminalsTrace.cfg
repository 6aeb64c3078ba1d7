SPECIFICATION TSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE

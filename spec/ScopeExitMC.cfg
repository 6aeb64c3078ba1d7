SPECIFICATION MCSpec
CONSTANTS MaxId = 3
 Behs = {"log", "throw", "empty", "rel"}
 MaxCalls = 2
INVARIANTS Once Never All
PROPERTY Order
CHECK_DEADLOCK FALSE

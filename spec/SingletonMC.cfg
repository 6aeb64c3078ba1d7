SPECIFICATION MCSpec
CONSTANTS Some = {"plain", "intrusive", "multi"}
 Early = {"multi"}
 Depth = 4
CONSTRAINT Bound
INVARIANTS AtMostOne Reached
PROPERTIES Independent Unharmed
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS N = 3
 Behs = {"plain", "d1", "d2", "d3", "conn", "emit", "throw"}
 MaxDepth = 2
 Much <- MCMuch
INVARIANTS Ordered Canon Counted
PROPERTIES Complete NotAfterwards
CHECK_DEADLOCK FALSE

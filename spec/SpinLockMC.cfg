SPECIFICATION MCSpec
CONSTANTS Threads = {1, 2, 3}
 MaxEntries = 5
INVARIANTS MutualExclusion Published Refines NothingLost
PROPERTIES Waits Progress
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2, 3}
 Args = {1, 2}
 Scratch = "own"
 Policy = "unlocked"
 Counting = "atomic"
 MaxCalls = 2
INVARIANTS ResultsOfOwn HeldValid AliveIffReferred
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2, 3}
 Args = {1, 2}
 Scratch = "own"
 Policy = "once"
 Counting = "torn"
 MaxCalls = 2
INVARIANTS ResultsOfOwn HeldValid AliveIffReferred
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS Bits = {4, 8, 16, 32, 64}
INVARIANTS RoundTrips TooBig Canonical
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS Cap = 8 MaxLen = 30
INVARIANTS Complete Fits
PROPERTY Terminates
CHECK_DEADLOCK FALSE

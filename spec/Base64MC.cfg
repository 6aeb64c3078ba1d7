SPECIFICATION MCSpec
CONSTANTS MaxLen = 4 ByteValues = {0, 3, 63, 128, 240, 255}
INVARIANTS RoundTrips Recognised Sizes AlphabetOk
CHECK_DEADLOCK FALSE

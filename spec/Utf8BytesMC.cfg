SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
 Alphabet = {0, 65, 127, 128, 191, 193, 194, 224, 160, 240, 248, 252, 253, 254, 255}
INVARIANTS Total Canonical PrefixSound Incremental
PROPERTY Monotone
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANT C = {0, 1, 10, 255, 256, 65535}
INVARIANTS Total Agrees Injective
CHECK_DEADLOCK FALSE

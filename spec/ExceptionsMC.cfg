SPECIFICATION MCSpec
CONSTANT MaxLevels = 6
INVARIANTS OnePerLevel OnePerStackLevel Named
CHECK_DEADLOCK FALSE

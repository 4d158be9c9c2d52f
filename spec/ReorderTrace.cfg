SPECIFICATION Spec
CONSTANT HugeLimit = 67108864
CONSTANT UnitArrayExplicit = TRUE
CHECK_DEADLOCK FALSE

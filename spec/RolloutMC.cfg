SPECIFICATION Spec
INVARIANT Readable Single
CONSTANT HugeLimit = 67108864
CONSTANT UnitArrayExplicit = TRUE
CONSTANT Services = 2
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Ends Bounded Known Case
CONSTANT HugeLimit = 67108864
CONSTANT UnitArrayExplicit = TRUE
CHECK_DEADLOCK FALSE

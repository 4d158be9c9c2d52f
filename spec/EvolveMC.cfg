SPECIFICATION Spec
INVARIANT Faithful Safe Symmetric Reflexive Orderless
CONSTANT HugeLimit = 67108864
CONSTANT UnitArrayExplicit = TRUE
CHECK_DEADLOCK FALSE

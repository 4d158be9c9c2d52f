SPECIFICATION Spec
INVARIANT Note
CHECK_DEADLOCK FALSE
CONSTANTS
  UnitArrayExplicit = TRUE
  HugeLimit = 67108864

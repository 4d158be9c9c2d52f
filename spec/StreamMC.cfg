SPECIFICATION Spec
INVARIANTS Independent BrokenFails Prefix Case WriteCase
CHECK_DEADLOCK FALSE
CONSTANTS
  UnitArrayExplicit = TRUE
  HugeLimit = 67108864

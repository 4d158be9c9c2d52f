SPECIFICATION Spec
INVARIANTS IsWritable RoundTrip Embedded WellFormed
CHECK_DEADLOCK FALSE
CONSTANTS
  UnitArrayExplicit = TRUE
  HugeLimit = 67108864
  Rich = TRUE

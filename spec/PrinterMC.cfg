SPECIFICATION Spec
INVARIANTS Again
CHECK_DEADLOCK FALSE

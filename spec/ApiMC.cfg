SPECIFICATION Spec
INVARIANT Emit Dual OneSide
CHECK_DEADLOCK FALSE

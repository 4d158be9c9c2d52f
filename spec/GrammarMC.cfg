SPECIFICATION Spec
INVARIANTS CanFinish NamesKept
CHECK_DEADLOCK FALSE

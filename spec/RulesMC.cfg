SPECIFICATION Spec
INVARIANTS AgreeIndices AgreeNames AgreeGraphs
CHECK_DEADLOCK FALSE

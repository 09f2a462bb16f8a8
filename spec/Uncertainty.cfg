SPECIFICATION Spec
INVARIANTS Restored OneAtATime EvaluationsRight Complete
PROPERTY ReturnsToIdle
CHECK_DEADLOCK FALSE

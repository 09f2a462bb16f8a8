CONSTANT Design = "good"
SPECIFICATION Spec
INVARIANT Composed
CHECK_DEADLOCK FALSE

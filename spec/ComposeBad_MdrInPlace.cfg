CONSTANT Design = "MdrInPlace"
SPECIFICATION Spec
INVARIANT Composed
CHECK_DEADLOCK FALSE

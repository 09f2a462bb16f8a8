CONSTANT Design = "UncInPlace"
SPECIFICATION Spec
INVARIANT Composed
CHECK_DEADLOCK FALSE

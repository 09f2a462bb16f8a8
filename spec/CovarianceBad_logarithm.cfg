SPECIFICATION Spec
INVARIANTS Scales SameVerdict
CONSTANTS
  K = 2
  Depth = 2
  Fault = "logarithm"
CHECK_DEADLOCK FALSE

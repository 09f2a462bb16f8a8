SPECIFICATION Spec
INVARIANTS Scales SameVerdict
CONSTANTS
  K = 2
  Depth = 3
  Fault = "none"
CHECK_DEADLOCK FALSE

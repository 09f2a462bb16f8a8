SPECIFICATION Spec
INVARIANTS Scales SameVerdict
CONSTANTS
  K = 2
  Depth = 2
  Fault = "threshold"
CHECK_DEADLOCK FALSE

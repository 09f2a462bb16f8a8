CONSTANTS
  Values = {0, 1, 2}
  Ratios = {0, 1, 4}
  Fault = "none"
SPECIFICATION Spec
INVARIANTS Decouples Agree
CHECK_DEADLOCK FALSE

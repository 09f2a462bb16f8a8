SPECIFICATION Spec
INVARIANTS SamePhysics Parity
CONSTANTS
  Depth = 2
  Fault = "parity"
CHECK_DEADLOCK FALSE

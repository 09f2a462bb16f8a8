SPECIFICATION Spec
INVARIANTS SamePhysics Parity
CONSTANTS
  Depth = 3
  Fault = "none"
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS SamePhysics Parity
CONSTANTS
  Depth = 2
  Fault = "forgotten"
CHECK_DEADLOCK FALSE

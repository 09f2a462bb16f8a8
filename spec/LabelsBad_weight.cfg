SPECIFICATION Spec
INVARIANTS SamePhysics Parity
CONSTANTS
  Depth = 2
  Fault = "weight"
CHECK_DEADLOCK FALSE

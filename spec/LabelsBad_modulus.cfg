SPECIFICATION Spec
INVARIANTS SamePhysics Parity
CONSTANTS
  Depth = 2
  Fault = "modulus"
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Bounded OnOrbit SelfConsistent NotTooEarly BeyondOneLoop Total
CONSTANTS
  Trees = {0, 3, 8}
  Cs = {0, 1, 5}
  Max = 4
  Prec = 1
  Fault = "nocheck"
CHECK_DEADLOCK FALSE

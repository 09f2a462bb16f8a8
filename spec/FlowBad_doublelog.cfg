SPECIFICATION Spec
INVARIANTS SameMass
CONSTANTS
  Orders = 3
  Consts = {0, 1}
  Betas = {1, 2}
  Steps = {1, 2}
  Fault = "doublelog"
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS SameMass Cancels LeadingLogs Degree
CONSTANTS
  Orders = 3
  Consts = {0, 1}
  Betas = {1, 2}
  Steps = {1, 2}
  Fault = "none"
CHECK_DEADLOCK FALSE

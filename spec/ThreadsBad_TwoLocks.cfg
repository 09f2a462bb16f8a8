SPECIFICATION Spec
CONSTANTS
  Threads = {1,2}
  Calls = 1
  Design = "TwoLocks"
INVARIANT OwnResults

CHECK_DEADLOCK FALSE

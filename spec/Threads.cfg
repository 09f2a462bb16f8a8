SPECIFICATION Spec
CONSTANTS
  Threads = {1,2,3}
  Calls = 2
  Design = "good"
INVARIANTS OwnResults Exclusive
PROPERTY AllFinish
CHECK_DEADLOCK FALSE

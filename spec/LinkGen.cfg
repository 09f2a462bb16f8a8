SPECIFICATION Spec
CONSTANTS
  MaxReq = 12
  Design = "good"
  Gen = TRUE
  Rules = 3
INVARIANTS StreamsGivenBack AnsweredCompletely
INVARIANT GenDone
CHECK_DEADLOCK FALSE

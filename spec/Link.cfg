SPECIFICATION Spec
CONSTANTS
  MaxReq = 2
  Design = "good"
  Gen = FALSE
  Rules = 3
INVARIANTS StreamsGivenBack AnsweredCompletely
PROPERTY EveryRequestReturns
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxReq = 2
  Design = "ReportFirst"
  Gen = FALSE
  Rules = 3
INVARIANTS StreamsGivenBack AnsweredCompletely

CHECK_DEADLOCK FALSE

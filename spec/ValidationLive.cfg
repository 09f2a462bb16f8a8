CONSTANTS
  Sectors = {"t"}
  Kinds = {"none","nonet","all","alld","allt","mth","mthd","ms2","ms2d","m","mt","th","m1"}
  Healthy = FALSE
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS RejectedIffDefect Completed Respected
PROPERTIES Idempotent StaysOk Decides
CHECK_DEADLOCK FALSE

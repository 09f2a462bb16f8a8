CONSTANTS
  Sectors = {"t", "b", "tau"}
  Kinds = {"none","nonet","all","alld","allt","mth","mthd","ms2","ms2d","m","mt","th","m1"}
  Healthy = TRUE
  Gen = TRUE
SPECIFICATION Spec
INVARIANTS GenCase
CHECK_DEADLOCK FALSE

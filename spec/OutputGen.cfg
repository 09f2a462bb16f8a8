SPECIFICATION Spec
CONSTANTS
  Users = {1}
  MaxOps = 10
  Design = "good"
  Gen = TRUE
INVARIANTS Clean BannerOnce ExactlyTheCompleted GenDone
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Users = {1,2}
  MaxOps = 2
  Design = "InnerVerbose"
  Gen = FALSE
INVARIANTS Clean BannerOnce ExactlyTheCompleted 
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Thr = 2
  EpsM = 3
  HasLimit = TRUE
  Variant = "OneSided"
INVARIANTS NoPole KeepsMixing Close LimitIsNear LabelIndependent Untouched
CHECK_DEADLOCK FALSE

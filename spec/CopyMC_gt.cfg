SPECIFICATION Spec
CONSTANTS
  Kind = "grp"
  NObj = 3
  NCon = 3
  NEmit = 3
  NSteps = 6
  Nested = TRUE
  Holds = TRUE
INVARIANTS Exactly Conns Kept CanEnd Alike
PROPERTY Apart
CHECK_DEADLOCK FALSE

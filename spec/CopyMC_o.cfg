SPECIFICATION Spec
CONSTANTS
  Kind = "own"
  NObj = 2
  NCon = 2
  NEmit = 2
  NSteps = 5
  Nested = TRUE
  Holds = TRUE
INVARIANTS Exactly Conns Kept CanEnd Alike
PROPERTY Apart
CHECK_DEADLOCK FALSE

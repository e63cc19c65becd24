SPECIFICATION Spec
CONSTANTS
  NMon = 2
  NCb = 2
  NEmit = 2
  NSteps = 7
  Nested = TRUE
  Holds = FALSE
INVARIANTS Exactly InOrder Counts CanEnd
CHECK_DEADLOCK FALSE

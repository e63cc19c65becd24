SPECIFICATION Spec
CONSTANTS
  NMon = 2
  NCb = 1
  NEmit = 2
  NSteps = 7
  Nested = FALSE
  Holds = TRUE
INVARIANTS Exactly InOrder Counts CanEnd
CHECK_DEADLOCK FALSE

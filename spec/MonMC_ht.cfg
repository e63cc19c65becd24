SPECIFICATION Spec
CONSTANTS
  NMon = 2
  NCb = 2
  NEmit = 3
  NSteps = 9
  Nested = FALSE
  Holds = TRUE
INVARIANTS Exactly InOrder Counts CanEnd
CHECK_DEADLOCK FALSE

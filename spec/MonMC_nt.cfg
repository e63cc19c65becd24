SPECIFICATION Spec
CONSTANTS
  NMon = 3
  NCb = 2
  NEmit = 3
  NSteps = 9
  Nested = TRUE
  Holds = FALSE
INVARIANTS Exactly InOrder Counts CanEnd
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NMon = 3
  NCb = 2
  NEmit = 2
  NSteps = 9
  Nested = FALSE
  Holds = FALSE
INVARIANTS Exactly InOrder Counts CanEnd
CHECK_DEADLOCK FALSE

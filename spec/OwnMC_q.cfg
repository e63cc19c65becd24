SPECIFICATION Spec
CONSTANTS
  NObj = 3
  NTok = 4
  NCb = 2
  NSteps = 6
INVARIANTS Same Knows Reach Freed InUse Told NoDead
PROPERTIES Complete
CHECK_DEADLOCK FALSE

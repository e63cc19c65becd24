SPECIFICATION Spec
CONSTANTS
  NObj = 3
  NTok = 6
  NCb = 3
  NSteps = 8
INVARIANTS Same Knows Reach Freed InUse Told NoDead
PROPERTIES Complete
CHECK_DEADLOCK FALSE

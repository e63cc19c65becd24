SPECIFICATION Spec
CONSTANTS
  MaxPos = 2
  MaxPre = 1
  MaxKws = 1
  MaxDecl = 2
  Annos = "some"
  Checks <- TypeChecks
INVARIANTS Same Accepts Loose Prefix
CHECK_DEADLOCK FALSE

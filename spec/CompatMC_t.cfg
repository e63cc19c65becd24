SPECIFICATION Spec
CONSTANTS
  MaxPos = 3
  MaxPre = 2
  MaxKws = 2
  MaxDecl = 3
  Annos = "none"
  Checks <- AllChecks
INVARIANTS Same Accepts Loose Prefix
CHECK_DEADLOCK FALSE

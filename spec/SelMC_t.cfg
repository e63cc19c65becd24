SPECIFICATION Spec
CONSTANTS
  Items <- Items4
VIEW View
INVARIANTS Inv
PROPERTIES PLaws
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Items <- Items3
VIEW View
INVARIANTS Inv
PROPERTIES PLaws
CHECK_DEADLOCK FALSE

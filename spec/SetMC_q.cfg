SPECIFICATION Spec
CONSTANTS
  Items <- ItemsQ
  ArgLen = 2
VIEW View
INVARIANTS Inv
PROPERTIES PAlgebra PAnnounce
CHECK_DEADLOCK FALSE

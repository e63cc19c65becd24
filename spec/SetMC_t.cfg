SPECIFICATION Spec
CONSTANTS
  Items <- ItemsT
  ArgLen = 3
VIEW View
INVARIANTS Inv
PROPERTIES PAlgebra PAnnounce
CHECK_DEADLOCK FALSE

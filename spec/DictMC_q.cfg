SPECIFICATION Spec
CONSTANTS
  KeyToks <- KeyS
  ValToks <- ValS
  EqOf <- EqD
  MaxLen = 3
VIEW View
INVARIANTS Inv
PROPERTIES PLaws PAnnounce
CHECK_DEADLOCK FALSE

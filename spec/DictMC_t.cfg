SPECIFICATION Spec
CONSTANTS
  KeyToks <- KeyL
  ValToks <- ValL
  EqOf <- EqD
  MaxLen = 3
VIEW View
INVARIANTS Inv
PROPERTIES PLaws PAnnounce
CHECK_DEADLOCK FALSE

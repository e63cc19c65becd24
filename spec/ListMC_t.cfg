SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Toks <- Tok3
  EqOf <- Eq3
  Steps <- StepsL
VIEW View
PROPERTIES PMove PMany PSlice PAnnounce
CHECK_DEADLOCK FALSE

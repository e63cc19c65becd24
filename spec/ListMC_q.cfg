SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Toks <- Tok3
  EqOf <- Eq3
  Steps <- StepsS
VIEW View
PROPERTIES PMove PMany PSlice PAnnounce
CHECK_DEADLOCK FALSE

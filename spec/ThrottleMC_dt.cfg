SPECIFICATION Spec
CONSTANTS
  Kind = "debouncer"
  Leading = FALSE
  Period = 2
  MaxNow = 6
  MaxCalls = 3
  MaxRuns = 1
INVARIANTS InvWaits InvNoLoss InvPend InvStack 
PROPERTIES PHistory PAtOnce
CHECK_DEADLOCK FALSE

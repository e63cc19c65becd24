SPECIFICATION Spec
CONSTANTS
  Kind = "throttler"
  Leading = FALSE
  Period = 3
  MaxNow = 9
  MaxCalls = 4
  MaxRuns = 2
INVARIANTS InvWaits InvNoLoss InvPend InvStack 
PROPERTIES PHistory PAtOnce
CHECK_DEADLOCK FALSE

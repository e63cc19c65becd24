SPECIFICATION Spec
CONSTANTS
  Kind = "throttler"
  Leading = TRUE
  Period = 2
  MaxNow = 6
  MaxCalls = 3
  MaxRuns = 1
INVARIANTS InvWaits InvNoLoss InvPend InvStack InvLead
PROPERTIES PHistory PAtOnce
CHECK_DEADLOCK FALSE

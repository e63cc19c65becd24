SPECIFICATION Spec
CONSTANTS
  Kind = "debouncer"
  Leading = TRUE
  Period = 3
  MaxNow = 9
  MaxCalls = 4
  MaxRuns = 2
INVARIANTS InvWaits InvNoLoss InvPend InvStack InvLead
PROPERTIES PHistory PAtOnce
CHECK_DEADLOCK FALSE

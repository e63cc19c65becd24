SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 0
  Relay = TRUE
  Prios = {0}
  MaxCbs = 40
  NCb = 2
  Ops = {"block", "emit", "fast", "raise"}
  MaxOps = 4
  Modes <- Modes_C06
  Connected <- Connected_C06
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear

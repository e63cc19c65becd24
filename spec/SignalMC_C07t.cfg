SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 3
  Relay = FALSE
  Prios = {0}
  MaxCbs = 40
  NCb = 1
  Ops = {"connect", "emit", "kill", "raise"}
  MaxOps = 5
  Modes <- Modes_C07t
  Connected <- Connected_C07t
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 0
  Relay = FALSE
  Prios = {0}
  MaxCbs = 40
  NCb = 3
  Ops = {"connect", "disconnect", "emit", "raise"}
  MaxOps = 5
  Modes <- Modes_C03qt
  Connected <- Connected_C03qt
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear

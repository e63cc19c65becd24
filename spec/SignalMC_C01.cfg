SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 0
  Relay = FALSE
  Prios = {0, 1}
  MaxCbs = 40
  NCb = 2
  Ops = {"connect", "disconnect", "emit", "fast"}
  MaxOps = 4
  Modes <- Modes_C01
  Connected <- Connected_C01
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear

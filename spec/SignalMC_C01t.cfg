SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 0
  Relay = FALSE
  Prios = {0, 1}
  MaxCbs = 40
  NCb = 3
  Ops = {"connect", "disconnect", "disconnect_all", "emit", "fast"}
  MaxOps = 5
  Modes <- Modes_C01t
  Connected <- Connected_C01t
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear

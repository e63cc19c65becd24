SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 2
  Relay = FALSE
  Prios = {0}
  MaxCbs = 40
  NCb = 1
  Ops = {"connect", "emit", "fast", "kill"}
  MaxOps = 4
  Modes <- Modes_C07
  Connected <- Connected_C07
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear

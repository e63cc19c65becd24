SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 0
  Relay = FALSE
  Prios = {0}
  MaxCbs = 40
  NCb = 2
  Ops = {"connect", "disconnect", "emit"}
  MaxOps = 4
  Modes <- Modes_C03l
  Connected <- Connected_C03l
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 0
  Relay = FALSE
  Prios = {0, 1, 2}
  MaxCbs = 40
  NCb = 2
  Ops = {"connect", "disconnect", "disconnect_all", "emit"}
  MaxOps = 5
  Modes <- Modes_C02
  Connected <- Connected_C02
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear

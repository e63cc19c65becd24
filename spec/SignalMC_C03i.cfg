SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 0
  Relay = FALSE
  Prios = {0}
  MaxCbs = 40
  NCb = 2
  Ops = {"connect", "emit"}
  MaxOps = 4
  Modes <- Modes_C03i
  Connected <- Connected_C03i
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear

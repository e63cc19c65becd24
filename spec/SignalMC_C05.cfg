SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NObj = 0
  Relay = TRUE
  Prios = {0}
  MaxCbs = 40
  NCb = 2
  Ops = {"emit", "raise"}
  MaxOps = 5
  Modes <- Modes_C05
  Connected <- Connected_C05
INVARIANTS NoDuplicate InOrder OnlyConnected NeverBlocked Complete QueuedComplete ModeOrder PausedInOrder NoResidue ReplayedAll Surfaces Sorted EmitterRight SenderClear
